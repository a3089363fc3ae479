package main

import (
	"reflect"

	"github.com/flukeish/pmml/models"
)

// What each element of a document means in terms of the decoded value: frozen
// when the check was written, after a review against the schema in the
// comments of the package.
var fidTypes = map[string]*fidType{
	"ARDSquaredExponentialKernel": {typ: reflect.TypeOf(models.ARDSquaredExponentialKernel{}), attrs: []fidAttr{
		{"description", "Description", "nil", "", nil},
		{"gamma", "Gamma", "nil", "1", nil},
		{"noiseVariance", "NoiseVariance", "nil", "1", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"Lambda", "Lambda", "Lambda", false, false},
	}},
	"ARIMA": {typ: reflect.TypeOf(models.ARIMA{})},
	"AbsoluteExponentialKernel": {typ: reflect.TypeOf(models.AbsoluteExponentialKernel{}), attrs: []fidAttr{
		{"description", "Description", "nil", "", nil},
		{"gamma", "Gamma", "nil", "1", nil},
		{"noiseVariance", "NoiseVariance", "nil", "1", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"Lambda", "Lambda", "Lambda", false, false},
	}},
	"Aggregate": {typ: reflect.TypeOf(models.Aggregate{}), attrs: []fidAttr{
		{"field", "Field", "", "", nil},
		{"function", "Function", "", "", []string{"average", "count", "max", "min", "multiset", "sum"}},
		{"groupField", "GroupField", "", "", nil},
		{"sqlWhere", "SQLWhere", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Alternate": {typ: reflect.TypeOf(models.Alternate{}), kids: []fidKid{
		{"", "Distribution", "ContinuousDistributionType", false, true},
	}},
	"Annotation": {typ: reflect.TypeOf(models.Annotation{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}, text: "Data"},
	"Anova": {typ: reflect.TypeOf(models.Anova{}), attrs: []fidAttr{
		{"target", "Target", "", "", nil},
	}, kids: []fidKid{
		{"AnovaRow", "Rows", "AnovaRow", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"AnovaRow": {typ: reflect.TypeOf(models.AnovaRow{}), attrs: []fidAttr{
		{"degreesOfFreedom", "DegreesOfFreedom", "0", "", nil},
		{"fValue", "FValue", "nil", "", nil},
		{"meanOfSquares", "MeanOfSquares", "nil", "", nil},
		{"pValue", "PValue", "nil", "", nil},
		{"sumOfSquares", "SumOfSquares", "0", "", nil},
		{"type", "Type", "", "", []string{"Error", "Model", "Total"}},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"AntecedentSequence": {typ: reflect.TypeOf(models.AntecedentSequence{}), kids: []fidKid{
		{"SequenceReference", "SequenceReference", "SequenceReference", false, false},
		{"Time", "Time", "Time", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"AnyDistribution": {typ: reflect.TypeOf(models.AnyDistribution{}), attrs: []fidAttr{
		{"mean", "Mean", "0", "", nil},
		{"variance", "Variance", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Application": {typ: reflect.TypeOf(models.Application{}), attrs: []fidAttr{
		{"name", "Name", "", "", nil},
		{"version", "Version", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Apply": {typ: reflect.TypeOf(models.Apply{}), attrs: []fidAttr{
		{"defaultValue", "DefaultValue", "nil", "", nil},
		{"function", "Function", "", "", nil},
		{"invalidValueTreatment", "InvalidValueTreatment", "returnInvalid", "returnInvalid", []string{"asIs", "asMissing", "returnInvalid"}},
		{"mapMissingTo", "MapMissingTo", "nil", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"", "Expressions", "Expression", true, true},
	}},
	"Array": {typ: reflect.TypeOf(models.Array{}), attrs: []fidAttr{
		{"n", "N", "nil", "", nil},
		{"type", "Type", "", "", []string{"int", "real", "string"}},
	}, text: "RawValue"},
	"ArrayType": {typ: reflect.TypeOf(models.ArrayType{}), attrs: []fidAttr{
		{"n", "N", "nil", "", nil},
		{"type", "Type", "", "", []string{"int", "real", "string"}},
	}, text: "RawValue"},
	"AssociationModel": {typ: reflect.TypeOf(models.AssociationModel{}), attrs: []fidAttr{
		{"algorithmName", "AlgorithmName", "", "", nil},
		{"avgNumberOfItemsPerTA", "AvgNumberOfItemsPerTA", "0", "", nil},
		{"functionName", "FunctionName", "", "", []string{"associationRules", "classification", "clustering", "mixed", "regression", "sequences", "timeSeries"}},
		{"isScorable", "IsScorable", "false", "true", nil},
		{"lengthLimit", "LengthLimit", "0", "", nil},
		{"maxNumberOfItemsPerTA", "MaxNumberOfItemsPerTA", "0", "", nil},
		{"minimumConfidence", "MinimumConfidence", "0", "", nil},
		{"minimumSupport", "MinimumSupport", "0", "", nil},
		{"modelName", "ModelName", "", "", nil},
		{"numberOfItems", "NumberOfItems", "0", "", nil},
		{"numberOfItemsets", "NumberOfItemsets", "0", "", nil},
		{"numberOfRules", "NumberOfRules", "0", "", nil},
		{"numberOfTransactions", "NumberOfTransactions", "0", "", nil},
	}, kids: []fidKid{
		{"AssociationRule", "AssociationRules", "AssociationRule", true, false},
		{"Item", "Items", "Item", true, false},
		{"Itemset", "Itemsets", "Itemset", true, false},
		{"LocalTransformations", "LocalTransformations", "LocalTransformations", false, false},
		{"MiningSchema", "MiningSchema", "MiningSchema", false, false},
		{"ModelStats", "ModelStats", "ModelStats", false, false},
		{"ModelVerification", "ModelVerification", "ModelVerification", false, false},
		{"Output", "Output", "Output", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"AssociationRule": {typ: reflect.TypeOf(models.AssociationRule{}), attrs: []fidAttr{
		{"affinity", "Affinity", "0", "", nil},
		{"antecedent", "Antecedent", "", "", nil},
		{"confidence", "Confidence", "0", "", nil},
		{"consequent", "Consequent", "", "", nil},
		{"id", "ID", "", "", nil},
		{"leverage", "Leverage", "0", "", nil},
		{"lift", "Lift", "0", "", nil},
		{"support", "Support", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Attribute": {typ: reflect.TypeOf(models.Attribute{}), attrs: []fidAttr{
		{"partialScore", "PartialScore", "0", "", nil},
		{"reasonCode", "ReasonCode", "", "", nil},
	}, kids: []fidKid{
		{"ComplexPartialScore", "ComplexPartialScore", "ComplexPartialScore", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BaseCumHazardTables": {typ: reflect.TypeOf(models.BaseCumHazardTables{}), attrs: []fidAttr{
		{"maxTime", "MaxTime", "0", "", nil},
	}, kids: []fidKid{
		{"BaselineCell", "BaselineCells", "BaselineCell", true, false},
		{"BaselineStratum", "BaselineStratums", "BaselineStratum", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Baseline": {typ: reflect.TypeOf(models.Baseline{})},
	"BaselineCell": {typ: reflect.TypeOf(models.BaselineCell{}), attrs: []fidAttr{
		{"cumHazard", "CumHazard", "0", "", nil},
		{"time", "Time", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BaselineModel": {typ: reflect.TypeOf(models.BaselineModel{}), attrs: []fidAttr{
		{"algorithmName", "AlgorithmName", "", "", nil},
		{"functionName", "FunctionName", "", "", []string{"associationRules", "classification", "clustering", "mixed", "regression", "sequences", "timeSeries"}},
		{"isScorable", "IsScorable", "false", "true", nil},
		{"modelName", "ModelName", "", "", nil},
	}, kids: []fidKid{
		{"LocalTransformations", "LocalTransformations", "LocalTransformations", false, false},
		{"MiningSchema", "MiningSchema", "MiningSchema", false, false},
		{"ModelExplanation", "ModelExplanation", "ModelExplanation", false, false},
		{"ModelVerification", "ModelVerification", "ModelVerification", false, false},
		{"Targets", "Targets", "Targets", false, false},
		{"Output", "Output", "Output", false, false},
		{"ModelStats", "ModelStats", "ModelStats", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BaselineStratum": {typ: reflect.TypeOf(models.BaselineStratum{}), attrs: []fidAttr{
		{"label", "Label", "", "", nil},
		{"maxTime", "MaxTime", "0", "", nil},
		{"value", "Value", "", "", nil},
	}, kids: []fidKid{
		{"BaselineCell", "BaselineCell", "BaselineCell", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BayesInput": {typ: reflect.TypeOf(models.BayesInput{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BayesInputs": {typ: reflect.TypeOf(models.BayesInputs{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BayesOutput": {typ: reflect.TypeOf(models.BayesOutput{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BayesianNetworkModel": {typ: reflect.TypeOf(models.BayesianNetworkModel{}), attrs: []fidAttr{
		{"algorithmName", "AlgorithmName", "", "", nil},
		{"functionName", "FunctionName", "", "", []string{"associationRules", "classification", "clustering", "mixed", "regression", "sequences", "timeSeries"}},
		{"isScorable", "IsScorable", "false", "true", nil},
		{"modelName", "ModelName", "", "", nil},
	}, kids: []fidKid{
		{"BayesianNetworkNodes", "BayesianNetworkNodes", "BayesianNetworkNodes", false, false},
		{"LocalTransformations", "LocalTransformations", "LocalTransformations", false, false},
		{"MiningSchema", "MiningSchema", "MiningSchema", false, false},
		{"ModelExplanation", "ModelExplanation", "ModelExplanation", false, false},
		{"ModelStats", "ModelStats", "ModelStats", false, false},
		{"ModelVerification", "ModelVerification", "ModelVerification", false, false},
		{"Output", "Output", "Output", false, false},
		{"Targets", "Targets", "Targets", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BayesianNetworkNodes": {typ: reflect.TypeOf(models.BayesianNetworkNodes{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BinarySimilarity": {typ: reflect.TypeOf(models.BinarySimilarity{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BlockIndicator": {typ: reflect.TypeOf(models.BlockIndicator{}), attrs: []fidAttr{
		{"field", "Field", "", "", nil},
	}},
	"BoundaryValueMeans": {typ: reflect.TypeOf(models.BoundaryValueMeans{}), kids: []fidKid{
		{"Array", "NumArray", "NumArray", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"BoundaryValues": {typ: reflect.TypeOf(models.BoundaryValues{}), kids: []fidKid{
		{"Array", "NumArray", "NumArray", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"CategoricalPredictor": {typ: reflect.TypeOf(models.CategoricalPredictor{}), attrs: []fidAttr{
		{"coefficient", "Coefficient", "0", "", nil},
		{"name", "Name", "", "", nil},
		{"value", "Value", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Categories": {typ: reflect.TypeOf(models.Categories{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Category": {typ: reflect.TypeOf(models.Category{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Characteristic": {typ: reflect.TypeOf(models.Characteristic{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Characteristics": {typ: reflect.TypeOf(models.Characteristics{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Chebychev": {typ: reflect.TypeOf(models.Chebychev{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ChildParent": {typ: reflect.TypeOf(models.ChildParent{}), attrs: []fidAttr{
		{"childField", "ChildField", "", "", nil},
		{"isRecursive", "IsRecursive", "false", "no", nil},
		{"parentField", "ParentField", "", "", nil},
		{"parentLevelField", "ParentLevelField", "", "", nil},
	}, kids: []fidKid{
		{"", "Table", "Table", false, true},
		{"Extension", "Extensions", "Extension", true, false},
		{"FieldColumnPair", "FieldColumnPairs", "FieldColumnPair", true, false},
	}},
	"CityBlock": {typ: reflect.TypeOf(models.CityBlock{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ClassLabels": {typ: reflect.TypeOf(models.ClassLabels{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Cluster": {typ: reflect.TypeOf(models.Cluster{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ClusteringField": {typ: reflect.TypeOf(models.ClusteringField{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ClusteringModel": {typ: reflect.TypeOf(models.ClusteringModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ClusteringModelQuality": {typ: reflect.TypeOf(models.ClusteringModelQuality{})},
	"Coefficient": {typ: reflect.TypeOf(models.Coefficient{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Coefficients": {typ: reflect.TypeOf(models.Coefficients{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ComparisonMeasure": {typ: reflect.TypeOf(models.ComparisonMeasure{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Comparisons": {typ: reflect.TypeOf(models.Comparisons{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ComplexPartialScore": {typ: reflect.TypeOf(models.ComplexPartialScore{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"CompoundPredicate": {typ: reflect.TypeOf(models.CompoundPredicate{}), attrs: []fidAttr{
		{"booleanOperator", "BooleanOperator", "", "", []string{"and", "or", "surrogate", "xor"}},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"", "Predicates", "Predicate", true, true},
	}},
	"CompoundRule": {typ: reflect.TypeOf(models.CompoundRule{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Con": {typ: reflect.TypeOf(models.Con{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ConfusionMatrix": {typ: reflect.TypeOf(models.ConfusionMatrix{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ConsequentSequence": {typ: reflect.TypeOf(models.ConsequentSequence{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Constant": {typ: reflect.TypeOf(models.Constant{}), attrs: []fidAttr{
		{"dataType", "DataType", "", "", []string{"boolean", "date", "dateDaysSince[0]", "dateDaysSince[1960]", "dateDaysSince[1970]", "dateDaysSince[1980]", "dateTime", "dateTimeSecondsSince[0]", "dateTimeSecondsSince[1960]", "dateTimeSecondsSince[1970]", "dateTimeSecondsSince[1980]", "double", "float", "integer", "string", "time", "timeSeconds"}},
	}, text: "Value"},
	"Constraints": {typ: reflect.TypeOf(models.Constraints{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ContStats": {typ: reflect.TypeOf(models.ContStats{}), attrs: []fidAttr{
		{"totalSquaresSum", "TotalSquaresSum", "0", "", nil},
		{"totalValuesSum", "TotalValuesSum", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"Interval", "Intervals", "Interval", true, false},
		{"Array", "Frequencies", "Array", true, false},
	}},
	"ContinuousConditionalProbability": {typ: reflect.TypeOf(models.ContinuousConditionalProbability{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ContinuousDistribution": {typ: reflect.TypeOf(models.ContinuousDistribution{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ContinuousNode": {typ: reflect.TypeOf(models.ContinuousNode{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"CorrelationFields": {typ: reflect.TypeOf(models.CorrelationFields{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"CorrelationMethods": {typ: reflect.TypeOf(models.CorrelationMethods{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"CorrelationValues": {typ: reflect.TypeOf(models.CorrelationValues{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Correlations": {typ: reflect.TypeOf(models.Correlations{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"CountTable": {typ: reflect.TypeOf(models.CountTable{}), attrs: []fidAttr{
		{"sample", "Sample", "nil", "", nil},
	}, kids: []fidKid{
		{"FieldValue", "FieldValues", "FieldValue", true, false},
		{"FieldValueCount", "FieldValueCounts", "FieldValueCount", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"CountTableType": {typ: reflect.TypeOf(models.CountTableType{}), attrs: []fidAttr{
		{"sample", "Sample", "nil", "", nil},
	}, kids: []fidKid{
		{"FieldValue", "FieldValues", "FieldValue", true, false},
		{"FieldValueCount", "FieldValueCounts", "FieldValueCount", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Counts": {typ: reflect.TypeOf(models.Counts{}), attrs: []fidAttr{
		{"cardinality", "Cardinality", "0", "", nil},
		{"invalidFreq", "InvalidFreq", "0", "", nil},
		{"missingFreq", "MissingFreq", "0", "", nil},
		{"totalFreq", "TotalFreq", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Covariances": {typ: reflect.TypeOf(models.Covariances{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"CovariateList": {typ: reflect.TypeOf(models.CovariateList{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"DataDictionary": {typ: reflect.TypeOf(models.DataDictionary{}), attrs: []fidAttr{
		{"numberOfFields", "NumberOfFields", "0", "", nil},
	}, kids: []fidKid{
		{"DataField", "DataFields", "DataField", true, false},
		{"Extension", "Extensions", "Extension", true, false},
		{"Taxonomy", "Taxonomies", "Taxonomy", true, false},
	}},
	"DataField": {typ: reflect.TypeOf(models.DataField{}), attrs: []fidAttr{
		{"dataType", "DataType", "", "", []string{"boolean", "date", "dateDaysSince[0]", "dateDaysSince[1960]", "dateDaysSince[1970]", "dateDaysSince[1980]", "dateTime", "dateTimeSecondsSince[0]", "dateTimeSecondsSince[1960]", "dateTimeSecondsSince[1970]", "dateTimeSecondsSince[1980]", "double", "float", "integer", "string", "time", "timeSeconds"}},
		{"displayName", "DisplayName", "", "", nil},
		{"isCyclic", "IsCyclic", "false", "0", nil},
		{"name", "Name", "", "", nil},
		{"optype", "OpType", "", "", []string{"categorical", "continuous", "ordinal"}},
		{"taxonomy", "Taxonomy", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"Interval", "Intervals", "Interval", true, false},
		{"Value", "Values", "Value", true, false},
	}},
	"Decision": {typ: reflect.TypeOf(models.Decision{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"DecisionTree": {typ: reflect.TypeOf(models.DecisionTree{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Decisions": {typ: reflect.TypeOf(models.Decisions{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"DefineFunction": {typ: reflect.TypeOf(models.DefineFunction{}), attrs: []fidAttr{
		{"dataType", "DataType", "", "", []string{"boolean", "date", "dateDaysSince[0]", "dateDaysSince[1960]", "dateDaysSince[1970]", "dateDaysSince[1980]", "dateTime", "dateTimeSecondsSince[0]", "dateTimeSecondsSince[1960]", "dateTimeSecondsSince[1970]", "dateTimeSecondsSince[1980]", "double", "float", "integer", "string", "time", "timeSeconds"}},
		{"name", "Name", "", "", nil},
		{"optype", "OpType", "", "", []string{"categorical", "continuous", "ordinal"}},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"ParameterField", "ParameterFields", "ParameterField", true, false},
		{"", "Expression", "Expression", false, true},
	}},
	"Delimiter": {typ: reflect.TypeOf(models.Delimiter{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"DerivedField": {typ: reflect.TypeOf(models.DerivedField{}), attrs: []fidAttr{
		{"dataType", "DataType", "", "", []string{"boolean", "date", "dateDaysSince[0]", "dateDaysSince[1960]", "dateDaysSince[1970]", "dateDaysSince[1980]", "dateTime", "dateTimeSecondsSince[0]", "dateTimeSecondsSince[1960]", "dateTimeSecondsSince[1970]", "dateTimeSecondsSince[1980]", "double", "float", "integer", "string", "time", "timeSeconds"}},
		{"displayName", "DisplayName", "", "", nil},
		{"name", "Name", "", "", nil},
		{"optype", "OpType", "", "", []string{"categorical", "continuous", "ordinal"}},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"Value", "Values", "Value", true, false},
		{"", "Expression", "Expression", false, true},
	}},
	"DiscrStats": {typ: reflect.TypeOf(models.DiscrStats{}), attrs: []fidAttr{
		{"modalValue", "ModalValue", "", "", nil},
	}, kids: []fidKid{
		{"Array", "Arrays", "Array", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"DiscreteConditionalProbability": {typ: reflect.TypeOf(models.DiscreteConditionalProbability{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"DiscreteNode": {typ: reflect.TypeOf(models.DiscreteNode{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Discretize": {typ: reflect.TypeOf(models.Discretize{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"DiscretizeBin": {typ: reflect.TypeOf(models.DiscretizeBin{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"DocumentTermMatrix": {typ: reflect.TypeOf(models.DocumentTermMatrix{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Euclidean": {typ: reflect.TypeOf(models.Euclidean{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"EventValues": {typ: reflect.TypeOf(models.EventValues{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ExponentialSmoothing": {typ: reflect.TypeOf(models.ExponentialSmoothing{})},
	"Extension": {typ: reflect.TypeOf(models.Extension{}), attrs: []fidAttr{
		{"extender", "Extender", "nil", "", nil},
		{"name", "Name", "nil", "", nil},
		{"value", "Value", "nil", "", nil},
	}, text: "Contents"},
	"FactorList": {typ: reflect.TypeOf(models.FactorList{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"False": {typ: reflect.TypeOf(models.False{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"FieldColumnPair": {typ: reflect.TypeOf(models.FieldColumnPair{}), attrs: []fidAttr{
		{"column", "Column", "", "", nil},
		{"field", "Field", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"FieldRef": {typ: reflect.TypeOf(models.FieldRef{}), attrs: []fidAttr{
		{"field", "Field", "", "", nil},
		{"mapMissingTo", "MapMissingTo", "nil", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"FieldValue": {typ: reflect.TypeOf(models.FieldValue{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"FieldValueCount": {typ: reflect.TypeOf(models.FieldValueCount{}), attrs: []fidAttr{
		{"count", "Count", "0", "", nil},
		{"field", "Field", "", "", nil},
		{"value", "Value", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"FollowSet": {typ: reflect.TypeOf(models.FollowSet{}), kids: []fidKid{
		{"Delimiter", "Delimiter", "Delimiter", false, false},
		{"SetReference", "SetReference", "SetReference", false, false},
		{"Time", "Time", "Time", false, false},
	}},
	"FrequenciesType": {typ: reflect.TypeOf(models.FrequenciesType{}), kids: []fidKid{
		{"Array", "NumArrays", "NumArray", true, false},
	}},
	"GaussianDistribution": {typ: reflect.TypeOf(models.GaussianDistribution{}), attrs: []fidAttr{
		{"mean", "Mean", "0", "", nil},
		{"variance", "Variance", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"GaussianProcessModel": {typ: reflect.TypeOf(models.GaussianProcessModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"GeneralRegressionModel": {typ: reflect.TypeOf(models.GeneralRegressionModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"GeneralizedExponentialKernel": {typ: reflect.TypeOf(models.GeneralizedExponentialKernel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Header": {typ: reflect.TypeOf(models.Header{}), attrs: []fidAttr{
		{"copyright", "Copyright", "", "", nil},
		{"description", "Description", "", "", nil},
		{"modelVersion", "ModelVersion", "", "", nil},
	}, kids: []fidKid{
		{"Annotation", "Annotations", "Annotation", true, false},
		{"Application", "Application", "Application", false, false},
		{"Extension", "Extensions", "Extension", true, false},
		{"Timestamp", "Timestamp", "Timestamp", false, false},
	}},
	"Indices": {typ: reflect.TypeOf(models.Indices{})},
	"InlineTable": {typ: reflect.TypeOf(models.InlineTable{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"row", "Rows", "row", true, false},
	}},
	"InstanceField": {typ: reflect.TypeOf(models.InstanceField{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"InstanceFields": {typ: reflect.TypeOf(models.InstanceFields{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"IntArray": {typ: reflect.TypeOf(models.IntArray{}), attrs: []fidAttr{
		{"n", "N", "nil", "", nil},
		{"type", "Type", "", "", []string{"int", "real", "string"}},
	}, text: "RawValue"},
	"IntegerEntries":     {typ: reflect.TypeOf(models.IntegerEntries{})},
	"IntegerSparseArray": {typ: reflect.TypeOf(models.IntegerSparseArray{})},
	"Interval": {typ: reflect.TypeOf(models.Interval{}), attrs: []fidAttr{
		{"closure", "Closure", "", "", []string{"closedClosed", "closedOpen", "openClosed", "openOpen"}},
		{"leftMargin", "LeftMargin", "0", "", nil},
		{"rightMargin", "RightMargin", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Item": {typ: reflect.TypeOf(models.Item{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ItemRef": {typ: reflect.TypeOf(models.ItemRef{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Itemset": {typ: reflect.TypeOf(models.Itemset{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Jaccard": {typ: reflect.TypeOf(models.Jaccard{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"KNNInput": {typ: reflect.TypeOf(models.KNNInput{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"KNNInputs": {typ: reflect.TypeOf(models.KNNInputs{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"KohonenMap": {typ: reflect.TypeOf(models.KohonenMap{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Lag": {typ: reflect.TypeOf(models.Lag{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Lambda": {typ: reflect.TypeOf(models.Lambda{}), kids: []fidKid{
		{"Array", "Array", "ArrayType", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Level": {typ: reflect.TypeOf(models.Level{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"LiftData": {typ: reflect.TypeOf(models.LiftData{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"LiftGraph": {typ: reflect.TypeOf(models.LiftGraph{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"LinearKernelType": {typ: reflect.TypeOf(models.LinearKernelType{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"LinearNorm": {typ: reflect.TypeOf(models.LinearNorm{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"LocalTransformations": {typ: reflect.TypeOf(models.LocalTransformations{}), kids: []fidKid{
		{"DerivedField", "DerivedFields", "DerivedField", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"LognormalDistributionForBN": {typ: reflect.TypeOf(models.LognormalDistributionForBN{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Lower": {typ: reflect.TypeOf(models.Lower{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"MapValues": {typ: reflect.TypeOf(models.MapValues{}), attrs: []fidAttr{
		{"defaultValue", "DefaultValue", "nil", "", nil},
		{"mapMissingTo", "MapMissingTo", "nil", "", nil},
		{"outputColumn", "OutputColumn", "", "", nil},
		{"dataType", "DataType", "", "", []string{"boolean", "date", "dateDaysSince[0]", "dateDaysSince[1960]", "dateDaysSince[1970]", "dateDaysSince[1980]", "dateTime", "dateTimeSecondsSince[0]", "dateTimeSecondsSince[1960]", "dateTimeSecondsSince[1970]", "dateTimeSecondsSince[1980]", "double", "float", "integer", "string", "time", "timeSeconds"}},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"FieldColumnPair", "FieldColumnPairs", "FieldColumnPair", true, false},
		{"InlineTable", "InlineTables", "InlineTable", true, false},
	}},
	"MatCell": {typ: reflect.TypeOf(models.MatCell{})},
	"Matrix":  {typ: reflect.TypeOf(models.Matrix{})},
	"Mean": {typ: reflect.TypeOf(models.Mean{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"MiningBuildTask": {typ: reflect.TypeOf(models.MiningBuildTask{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"MiningField": {typ: reflect.TypeOf(models.MiningField{}), attrs: []fidAttr{
		{"highValue", "HighValue", "0", "", nil},
		{"importance", "Importance", "0", "", nil},
		{"invalidValueTreatment", "InvalidValueTreatment", "", "returnInvalid", []string{"asIs", "asMissing", "returnInvalid"}},
		{"lowValue", "LowValue", "0", "", nil},
		{"missingValueReplacement", "MissingValueReplacement", "nil", "", nil},
		{"missingValueTreatment", "MissingValueTreatment", "", "", []string{"asIs", "asMean", "asMedian", "asMode", "asValue"}},
		{"name", "Name", "", "", nil},
		{"optype", "OpType", "", "", []string{"categorical", "continuous", "ordinal"}},
		{"outliers", "Outliers", "", "asIs", []string{"asExtremeValues", "asIs", "asMissingValues"}},
		{"usageType", "UsageType", "", "active", []string{"active", "analysisWeight", "frequencyWeight", "group", "order", "predicted", "supplementary", "target"}},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"MiningModel": {typ: reflect.TypeOf(models.MiningModel{}), attrs: []fidAttr{
		{"algorithmName", "AlgorithmName", "nil", "", nil},
		{"functionName", "FunctionName", "", "", []string{"associationRules", "classification", "clustering", "mixed", "regression", "sequences", "timeSeries"}},
		{"isScorable", "IsScorable", "false", "true", nil},
		{"modelName", "ModelName", "nil", "", nil},
	}, kids: []fidKid{
		{"ModelVerification", "ModelVerification", "ModelVerification", false, false},
		{"MiningSchema", "MiningSchema", "MiningSchema", false, false},
		{"LocalTransformations", "LocalTransformations", "LocalTransformations", false, false},
		{"Output", "Output", "Output", false, false},
		{"Segmentation", "Segmentation", "Segmentation", false, false},
		{"Targets", "Targets", "Targets", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"MiningSchema": {typ: reflect.TypeOf(models.MiningSchema{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"MiningField", "MiningFields", "MiningField", true, false},
	}},
	"Minkowski": {typ: reflect.TypeOf(models.Minkowski{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"MissingValueWeights": {typ: reflect.TypeOf(models.MissingValueWeights{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ModelExplanation": {typ: reflect.TypeOf(models.ModelExplanation{}), kids: []fidKid{
		{"Correlations", "Correlations", "Correlations", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ModelLiftGraph": {typ: reflect.TypeOf(models.ModelLiftGraph{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ModelStats": {typ: reflect.TypeOf(models.ModelStats{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"MultivariateStats", "MultivariateStats", "MultivariateStats", true, false},
		{"UnivariateStats", "UnivariateStats", "UnivariateStats", true, false},
	}},
	"ModelVerification": {typ: reflect.TypeOf(models.ModelVerification{}), attrs: []fidAttr{
		{"fieldCount", "FieldCount", "0", "", nil},
		{"recordCount", "RecordCount", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"InlineTable", "InlineTable", "InlineTable", false, false},
		{"VerificationFields", "VerificationFields", "VerificationFields", false, false},
	}},
	"MultivariateStat": {typ: reflect.TypeOf(models.MultivariateStat{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"MultivariateStats": {typ: reflect.TypeOf(models.MultivariateStats{}), attrs: []fidAttr{
		{"targetCategory", "TargetCategory", "", "", nil},
	}, kids: []fidKid{
		{"MultivariateStat", "MultivariateStats", "MultivariateStat", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NaiveBayesModel": {typ: reflect.TypeOf(models.NaiveBayesModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NearestNeighborModel": {typ: reflect.TypeOf(models.NearestNeighborModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NeuralInput": {typ: reflect.TypeOf(models.NeuralInput{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NeuralInputs": {typ: reflect.TypeOf(models.NeuralInputs{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NeuralLayer": {typ: reflect.TypeOf(models.NeuralLayer{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NeuralNetwork": {typ: reflect.TypeOf(models.NeuralNetwork{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NeuralOutput": {typ: reflect.TypeOf(models.NeuralOutput{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NeuralOutputs": {typ: reflect.TypeOf(models.NeuralOutputs{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Neuron": {typ: reflect.TypeOf(models.Neuron{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Node": {typ: reflect.TypeOf(models.Node{}), attrs: []fidAttr{
		{"defaultChild", "DefaultChild", "", "", nil},
		{"id", "ID", "", "", nil},
		{"recordCount", "RecordCount", "0", "", nil},
		{"score", "Score", "", "", nil},
	}, kids: []fidKid{
		{"", "EmbeddedModel", "EmbeddedModel", false, true},
		{"Node", "Nodes", "Node", true, false},
		{"Partition", "Partition", "Partition", false, false},
		{"ScoreDistribution", "ScoreDistributions", "ScoreDistribution", true, false},
		{"Extension", "Extensions", "Extension", true, false},
		{"", "Predicate", "Predicate", false, true},
	}},
	"NormContinuous": {typ: reflect.TypeOf(models.NormContinuous{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NormDiscrete": {typ: reflect.TypeOf(models.NormDiscrete{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NormalDistributionForBN": {typ: reflect.TypeOf(models.NormalDistributionForBN{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NormalizedCountTable": {typ: reflect.TypeOf(models.NormalizedCountTable{}), attrs: []fidAttr{
		{"sample", "Sample", "nil", "", nil},
	}, kids: []fidKid{
		{"FieldValue", "FieldValues", "FieldValue", true, false},
		{"FieldValueCount", "FieldValueCounts", "FieldValueCount", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"NumArray": {typ: reflect.TypeOf(models.NumArray{}), attrs: []fidAttr{
		{"n", "N", "nil", "", nil},
		{"type", "Type", "", "", []string{"int", "real", "string"}},
	}, text: "RawValue"},
	"NumericInfo": {typ: reflect.TypeOf(models.NumericInfo{}), attrs: []fidAttr{
		{"interQuartileRange", "InterQuartileRange", "0", "", nil},
		{"maximum", "Maximum", "0", "", nil},
		{"mean", "Mean", "0", "", nil},
		{"median", "Median", "0", "", nil},
		{"minimum", "Minimum", "0", "", nil},
		{"standardDeviation", "StandardDeviation", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"Quantile", "Quantiles", "Quantile", true, false},
	}},
	"NumericPredictor": {typ: reflect.TypeOf(models.NumericPredictor{}), attrs: []fidAttr{
		{"name", "Name", "", "", nil},
		{"coefficient", "Coefficient", "0", "", nil},
		{"exponent", "Exponent", "1", "1", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"OptimumLiftGraph": {typ: reflect.TypeOf(models.OptimumLiftGraph{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Output": {typ: reflect.TypeOf(models.Output{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"OutputField", "Fields", "OutputField", true, false},
	}},
	"OutputField": {typ: reflect.TypeOf(models.OutputField{}), attrs: []fidAttr{
		{"algorithm", "Algorithm", "", "exclusiveRecommendation", []string{"exclusiveRecommendation", "recommendation", "ruleAssociation"}},
		{"dataType", "DataType", "", "", []string{"boolean", "date", "dateDaysSince[0]", "dateDaysSince[1960]", "dateDaysSince[1970]", "dateDaysSince[1980]", "dateTime", "dateTimeSecondsSince[0]", "dateTimeSecondsSince[1960]", "dateTimeSecondsSince[1970]", "dateTimeSecondsSince[1980]", "double", "float", "integer", "string", "time", "timeSeconds"}},
		{"displayName", "DisplayName", "", "", nil},
		{"feature", "Feature", "", "predictedValue", []string{"affinity", "antecedent", "clusterAffinity", "clusterId", "confidence", "consequent", "decision", "entityAffinity", "entityId", "leverage", "lift", "predictedDisplayValue", "predictedValue", "probability", "reasonCode", "residual", "rule", "ruleId", "ruleValue", "standardError", "support", "transformedValue", "warning"}},
		{"isMultiValued", "IsMultiValued", "0", "0", nil},
		{"name", "Name", "", "", nil},
		{"optype", "OpType", "", "", []string{"categorical", "continuous", "ordinal"}},
		{"rank", "Rank", "0", "1", nil},
		{"rankBasis", "RankBasis", "", "confidence", []string{"affinity", "confidence", "leverage", "lift", "support"}},
		{"rankOrder", "RankOrder", "", "descending", []string{"ascending", "descending"}},
		{"ruleFeature", "RuleFeature", "", "consequent", []string{"affinity", "antecedent", "confidence", "consequent", "leverage", "lift", "rule", "ruleId", "support"}},
		{"segmentId", "SegmentID", "", "", nil},
		{"targetField", "TargetField", "", "", nil},
		{"value", "Value", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PCell": {typ: reflect.TypeOf(models.PCell{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PCovCell": {typ: reflect.TypeOf(models.PCovCell{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PCovMatrix": {typ: reflect.TypeOf(models.PCovMatrix{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PMML": {typ: reflect.TypeOf(models.PMML{}), attrs: []fidAttr{
		{"version", "Version", "", "", nil},
	}, kids: []fidKid{
		{"DataDictionary", "DataDictionary", "DataDictionary", false, false},
		{"TransformationDictionary", "TransformationDictionary", "TransformationDictionary", false, false},
		{"Extension", "Extensions", "Extension", true, false},
		{"Header", "Header", "Header", false, false},
		{"MiningBuildTask", "MiningBuildTask", "MiningBuildTask", false, false},
		{"", "Models", "ModelElement", true, true},
	}},
	"PPCell": {typ: reflect.TypeOf(models.PPCell{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PPMatrix": {typ: reflect.TypeOf(models.PPMatrix{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PairCounts": {typ: reflect.TypeOf(models.PairCounts{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ParamMatrix": {typ: reflect.TypeOf(models.ParamMatrix{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Parameter": {typ: reflect.TypeOf(models.Parameter{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ParameterField": {typ: reflect.TypeOf(models.ParameterField{})},
	"ParameterList": {typ: reflect.TypeOf(models.ParameterList{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ParentValue": {typ: reflect.TypeOf(models.ParentValue{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Partition": {typ: reflect.TypeOf(models.Partition{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PartitionFieldStats": {typ: reflect.TypeOf(models.PartitionFieldStats{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PoissonDistribution": {typ: reflect.TypeOf(models.PoissonDistribution{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PolynomialKernelType": {typ: reflect.TypeOf(models.PolynomialKernelType{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PredictiveModelQuality": {typ: reflect.TypeOf(models.PredictiveModelQuality{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Predictor": {typ: reflect.TypeOf(models.Predictor{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"PredictorTerm": {typ: reflect.TypeOf(models.PredictorTerm{}), attrs: []fidAttr{
		{"coefficient", "Coefficient", "0", "", nil},
		{"name", "Name", "", "", nil},
	}, kids: []fidKid{
		{"FieldRef", "FieldRefs", "FieldRef", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Quantile": {typ: reflect.TypeOf(models.Quantile{}), attrs: []fidAttr{
		{"quantileLimit", "QuantileLimit", "0", "", nil},
		{"quantileValue", "QuantileValue", "0", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ROC": {typ: reflect.TypeOf(models.ROC{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ROCGraph": {typ: reflect.TypeOf(models.ROCGraph{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"RadialBasisKernel": {typ: reflect.TypeOf(models.RadialBasisKernel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"RadialBasisKernelType": {typ: reflect.TypeOf(models.RadialBasisKernelType{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"RandomLiftGraph": {typ: reflect.TypeOf(models.RandomLiftGraph{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"RealEntries":     {typ: reflect.TypeOf(models.RealEntries{})},
	"RealSparseArray": {typ: reflect.TypeOf(models.RealSparseArray{})},
	"Regression": {typ: reflect.TypeOf(models.Regression{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"RegressionModel": {typ: reflect.TypeOf(models.RegressionModel{}), attrs: []fidAttr{
		{"algorithmName", "AlgorithmName", "", "", nil},
		{"functionName", "FunctionName", "", "", []string{"associationRules", "classification", "clustering", "mixed", "regression", "sequences", "timeSeries"}},
		{"isScorable", "IsScorable", "false", "true", nil},
		{"modelName", "ModelName", "", "", nil},
		{"normalizationMethod", "RegressionNormalizationMethod", "", "none", []string{"cauchit", "cloglog", "exp", "logit", "loglog", "none", "probit", "simplemax", "softmax"}},
	}, kids: []fidKid{
		{"LocalTransformations", "LocalTransformations", "LocalTransformations", false, false},
		{"MiningSchema", "MiningSchema", "MiningSchema", false, false},
		{"RegressionTable", "RegressionTables", "RegressionTable", true, false},
		{"ModelExplanation", "ModelExplanation", "ModelExplanation", false, false},
		{"ModelStats", "ModelStats", "ModelStats", false, false},
		{"ModelVerification", "ModelVerification", "ModelVerification", false, false},
		{"Output", "Output", "Output", false, false},
		{"Targets", "Targets", "Targets", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"RegressionTable": {typ: reflect.TypeOf(models.RegressionTable{}), attrs: []fidAttr{
		{"intercept", "Intercept", "0", "", nil},
		{"targetCategory", "TargetCategory", "", "", nil},
	}, kids: []fidKid{
		{"NumericPredictor", "NumericPredictor", "NumericPredictor", true, false},
		{"CategoricalPredictor", "CategoricalPredictor", "CategoricalPredictor", true, false},
		{"PredictorTerm", "PredictorTerm", "PredictorTerm", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ResultField": {typ: reflect.TypeOf(models.ResultField{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"RuleSelectionMethod": {typ: reflect.TypeOf(models.RuleSelectionMethod{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"RuleSet": {typ: reflect.TypeOf(models.RuleSet{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"RuleSetModel": {typ: reflect.TypeOf(models.RuleSetModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ScoreDistribution": {typ: reflect.TypeOf(models.ScoreDistribution{}), attrs: []fidAttr{
		{"confidence", "Confidence", "nil", "", nil},
		{"probability", "Probability", "nil", "", nil},
		{"recordCount", "RecordCount", "0", "", nil},
		{"value", "Value", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Scorecard": {typ: reflect.TypeOf(models.Scorecard{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SeasonalTrendDecomposition": {typ: reflect.TypeOf(models.SeasonalTrendDecomposition{})},
	"SeasonalityExpoSmooth":      {typ: reflect.TypeOf(models.SeasonalityExpoSmooth{})},
	"Segment": {typ: reflect.TypeOf(models.Segment{}), attrs: []fidAttr{
		{"id", "Id", "", "", nil},
	}, kids: []fidKid{
		{"", "Predicates", "Predicate", true, true},
		{"", "Models", "ModelElement", true, true},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Segmentation": {typ: reflect.TypeOf(models.Segmentation{}), attrs: []fidAttr{
		{"multipleModelMethod", "MultipleModelMethod", "", "", []string{"average", "majorityVote", "max", "median", "modelChain", "selectAll", "selectFirst", "sum", "weightedAverage", "weightedMajorityVote"}},
	}, kids: []fidKid{
		{"Segment", "Segments", "Segment", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Sequence": {typ: reflect.TypeOf(models.Sequence{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SequenceGroup": {typ: reflect.TypeOf(models.SequenceGroup{}), kids: []fidKid{
		{"SequenceReference", "SequenceReference", "SequenceReference", false, false},
		{"Time", "Time", "Time", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SequenceModel": {typ: reflect.TypeOf(models.SequenceModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SequenceReference": {typ: reflect.TypeOf(models.SequenceReference{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SequenceRule": {typ: reflect.TypeOf(models.SequenceRule{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SetPredicate": {typ: reflect.TypeOf(models.SetPredicate{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SetReference": {typ: reflect.TypeOf(models.SetReference{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SigmoidKernelType": {typ: reflect.TypeOf(models.SigmoidKernelType{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SimpleMatching": {typ: reflect.TypeOf(models.SimpleMatching{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SimplePredicate": {typ: reflect.TypeOf(models.SimplePredicate{}), attrs: []fidAttr{
		{"field", "Field", "", "", nil},
		{"operator", "Operator", "", "", []string{"equal", "greaterOrEqual", "greaterThan", "isMissing", "isNotMissing", "lessOrEqual", "lessThan", "notEqual"}},
		{"value", "Value", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SimpleRule": {typ: reflect.TypeOf(models.SimpleRule{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SimpleSetPredicate": {typ: reflect.TypeOf(models.SimpleSetPredicate{}), attrs: []fidAttr{
		{"booleanOperator", "BooleanOperator", "", "", []string{"isIn", "isNotIn"}},
		{"field", "Field", "", "", nil},
	}, kids: []fidKid{
		{"Array", "Array", "Array", false, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SpectralAnalysis": {typ: reflect.TypeOf(models.SpectralAnalysis{})},
	"SquaredEuclidean": {typ: reflect.TypeOf(models.SquaredEuclidean{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"StringArray": {typ: reflect.TypeOf(models.StringArray{}), attrs: []fidAttr{
		{"n", "N", "nil", "", nil},
		{"type", "Type", "", "", []string{"int", "real", "string"}},
	}, text: "RawValue"},
	"SupportVector": {typ: reflect.TypeOf(models.SupportVector{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SupportVectorMachine": {typ: reflect.TypeOf(models.SupportVectorMachine{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SupportVectorMachineModel": {typ: reflect.TypeOf(models.SupportVectorMachineModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"SupportVectors": {typ: reflect.TypeOf(models.SupportVectors{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TableLocator": {typ: reflect.TypeOf(models.TableLocator{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Tanimoto": {typ: reflect.TypeOf(models.Tanimoto{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Target": {typ: reflect.TypeOf(models.Target{}), attrs: []fidAttr{
		{"castInteger", "CastInteger", "", "", []string{"ceiling", "floor", "round"}},
		{"field", "Field", "", "", nil},
		{"max", "Max", "0", "", nil},
		{"min", "Min", "0", "", nil},
		{"optype", "OpType", "", "", []string{"categorical", "continuous", "ordinal"}},
		{"rescaleConstant", "RescaleConstant", "nil", "0", nil},
		{"rescaleFactor", "RescaleFactor", "nil", "1", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"TargetValue", "TargetValues", "TargetValue", true, false},
	}},
	"TargetValue": {typ: reflect.TypeOf(models.TargetValue{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TargetValueCount": {typ: reflect.TypeOf(models.TargetValueCount{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TargetValueCounts": {typ: reflect.TypeOf(models.TargetValueCounts{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TargetValueStat": {typ: reflect.TypeOf(models.TargetValueStat{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TargetValueStats": {typ: reflect.TypeOf(models.TargetValueStats{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Targets": {typ: reflect.TypeOf(models.Targets{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"Target", "Targets", "Target", true, false},
	}},
	"Taxonomy": {typ: reflect.TypeOf(models.Taxonomy{}), attrs: []fidAttr{
		{"name", "Name", "", "", nil},
	}, kids: []fidKid{
		{"ChildParent", "ChildParents", "ChildParent", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TestDistributions": {typ: reflect.TypeOf(models.TestDistributions{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TextCorpus": {typ: reflect.TypeOf(models.TextCorpus{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TextDictionary": {typ: reflect.TypeOf(models.TextDictionary{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TextDocument": {typ: reflect.TypeOf(models.TextDocument{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TextIndex": {typ: reflect.TypeOf(models.TextIndex{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TextIndexNormalization": {typ: reflect.TypeOf(models.TextIndexNormalization{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TextModel": {typ: reflect.TypeOf(models.TextModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TextModelNormalization": {typ: reflect.TypeOf(models.TextModelNormalization{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TextModelSimiliarity": {typ: reflect.TypeOf(models.TextModelSimiliarity{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Time": {typ: reflect.TypeOf(models.Time{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TimeAnchor":    {typ: reflect.TypeOf(models.TimeAnchor{})},
	"TimeCycle":     {typ: reflect.TypeOf(models.TimeCycle{})},
	"TimeException": {typ: reflect.TypeOf(models.TimeException{})},
	"TimeSeries":    {typ: reflect.TypeOf(models.TimeSeries{})},
	"TimeSeriesModel": {typ: reflect.TypeOf(models.TimeSeriesModel{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TimeValue": {typ: reflect.TypeOf(models.TimeValue{})},
	"Timestamp": {typ: reflect.TypeOf(models.Timestamp{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TrainingInstances": {typ: reflect.TypeOf(models.TrainingInstances{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TransformationDictionary": {typ: reflect.TypeOf(models.TransformationDictionary{}), kids: []fidKid{
		{"DefineFunction", "DefineFunctions", "DefineFunction", true, false},
		{"DerivedField", "DerivedFields", "DerivedField", true, false},
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"TreeModel": {typ: reflect.TypeOf(models.TreeModel{}), attrs: []fidAttr{
		{"algorithmName", "AlgorithmName", "", "", nil},
		{"functionName", "FunctionName", "", "", []string{"associationRules", "classification", "clustering", "mixed", "regression", "sequences", "timeSeries"}},
		{"isScorable", "IsScorable", "false", "true", nil},
		{"missingValuePenalty", "MissingValuePenalty", "1", "1.0", nil},
		{"missingValueStrategy", "MissingValueStrategy", "", "none", []string{"aggregateNodes", "defaultChild", "lastPrediction", "none", "nullPrediction", "weightedConfidence"}},
		{"modelName", "ModelName", "", "", nil},
		{"noTrueChildStrategy", "NoTrueChildStrategy", "", "returnNullPrediction", []string{"returnLastPrediction", "returnNullPrediction"}},
		{"splitCharacteristic", "SplitCharacteristic", "", "multiSplit", []string{"binarySplit", "multiSplit"}},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"LocalTransformations", "LocalTransformations", "LocalTransformations", false, false},
		{"MiningSchema", "MiningSchema", "MiningSchema", false, false},
		{"ModelExplanation", "ModelExplanation", "ModelExplanation", false, false},
		{"ModelStats", "ModelStats", "ModelStats", false, false},
		{"ModelVerification", "ModelVerification", "ModelVerification", false, false},
		{"Node", "Node", "Node", false, false},
		{"Output", "Output", "Output", false, false},
		{"Targets", "Targets", "Targets", false, false},
	}},
	"TrendExpoSmooth": {typ: reflect.TypeOf(models.TrendExpoSmooth{})},
	"TriangularDistributionForBN": {typ: reflect.TypeOf(models.TriangularDistributionForBN{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"True": {typ: reflect.TypeOf(models.True{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"UniformDistribution": {typ: reflect.TypeOf(models.UniformDistribution{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"UniformDistributionForBN": {typ: reflect.TypeOf(models.UniformDistributionForBN{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"UnivariateStats": {typ: reflect.TypeOf(models.UnivariateStats{}), attrs: []fidAttr{
		{"field", "Field", "", "", nil},
		{"weighted", "Weighted", "false", "0", nil},
	}, kids: []fidKid{
		{"Anova", "Anova", "Anova", false, false},
		{"ContStats", "ContStats", "ContStats", false, false},
		{"Counts", "Counts", "Counts", false, false},
		{"DiscrStats", "DiscrStats", "DiscrStats", false, false},
		{"Extension", "Extensions", "Extension", true, false},
		{"NumericInfo", "NumericInfo", "NumericInfo", false, false},
	}},
	"Upper": {typ: reflect.TypeOf(models.Upper{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Value": {typ: reflect.TypeOf(models.Value{}), attrs: []fidAttr{
		{"displayValue", "DisplayValue", "", "", nil},
		{"property", "Valid", "", "valid", []string{"invalid", "missing", "valid"}},
		{"value", "Value", "", "", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"ValueProbability": {typ: reflect.TypeOf(models.ValueProbability{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"Variance": {typ: reflect.TypeOf(models.Variance{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"VectorDictionary": {typ: reflect.TypeOf(models.VectorDictionary{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"VectorFields": {typ: reflect.TypeOf(models.VectorFields{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"VectorInstance": {typ: reflect.TypeOf(models.VectorInstance{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"VerificationField": {typ: reflect.TypeOf(models.VerificationField{}), attrs: []fidAttr{
		{"field", "Field", "", "", nil},
		{"column", "Column", "", "", nil},
		{"precision", "Precision", "nil", "1E-6", nil},
		{"zeroThreshold", "ZeroThreshold", "nil", "1E-16", nil},
	}, kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"VerificationFields": {typ: reflect.TypeOf(models.VerificationFields{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
		{"VerificationField", "Fields", "VerificationField", true, false},
	}},
	"XCoordinates": {typ: reflect.TypeOf(models.XCoordinates{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
	"YCoordinates": {typ: reflect.TypeOf(models.YCoordinates{}), kids: []fidKid{
		{"Extension", "Extensions", "Extension", true, false},
	}},
}
