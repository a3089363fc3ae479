package main

import "github.com/flukeish/pmml/models"

// The named constants for what the schema enumerates: frozen like fidTypes.
var constants = []struct {
	value interface{}
	text  string
}{
	{models.ActivationFunctionElliott, "Elliott"},
	{models.ActivationFunctionGauss, "Gauss"},
	{models.ActivationFunctionArctan, "arctan"},
	{models.ActivationFunctionCosine, "cosine"},
	{models.ActivationFunctionExponential, "exponential"},
	{models.ActivationFunctionIdentity, "identity"},
	{models.ActivationFunctionLogistic, "logistic"},
	{models.ActivationFunctionRadialBasis, "radialBasis"},
	{models.ActivationFunctionReciprocal, "reciprocal"},
	{models.ActivationFunctionRectifier, "rectifier"},
	{models.ActivationFunctionSine, "sine"},
	{models.ActivationFunctionSquare, "square"},
	{models.ActivationFunctionTanh, "tanh"},
	{models.ActivationFunctionThreshold, "threshold"},
	{models.BaselineTestStatisticCUSUM, "CUSUM"},
	{models.BaselineTestStatisticChiSquareDistribution, "chiSquareDistribution"},
	{models.BaselineTestStatisticChiSquareIndependence, "chiSquareIndependence"},
	{models.BaselineTestStatisticScalarProduct, "scalarProduct"},
	{models.BaselineTestStatisticZValue, "zValue"},
	{models.CatScoringMethodMajorityVote, "majorityVote"},
	{models.CatScoringMethodWeightedMajorityVote, "weightedMajorityVote"},
	{models.CompareFunctionAbsDiff, "absDiff"},
	{models.CompareFunctionDelta, "delta"},
	{models.CompareFunctionEqual, "equal"},
	{models.CompareFunctionGaussSim, "gaussSim"},
	{models.CompareFunctionTable, "table"},
	{models.ContScoringMethodAverage, "average"},
	{models.ContScoringMethodMedian, "median"},
	{models.ContScoringMethodWeightedAverage, "weightedAverage"},
	{models.CumulativeLinkFunctionCauchit, "cauchit"},
	{models.CumulativeLinkFunctionCloglog, "cloglog"},
	{models.CumulativeLinkFunctionLogit, "logit"},
	{models.CumulativeLinkFunctionLoglog, "loglog"},
	{models.CumulativeLinkFunctionProbit, "probit"},
	{models.DataTypeBoolean, "boolean"},
	{models.DataTypeDate, "date"},
	{models.DataTypeDateDaysSince0, "dateDaysSince[0]"},
	{models.DataTypeDateDaysSince1960, "dateDaysSince[1960]"},
	{models.DataTypeDateDaysSince1970, "dateDaysSince[1970]"},
	{models.DataTypeDateDaysSince1980, "dateDaysSince[1980]"},
	{models.DataTypeDateTime, "dateTime"},
	{models.DataTypeDateTimeSecondsSince0, "dateTimeSecondsSince[0]"},
	{models.DataTypeDateTimeSecondsSince1960, "dateTimeSecondsSince[1960]"},
	{models.DataTypeDateTimeSecondsSince1970, "dateTimeSecondsSince[1970]"},
	{models.DataTypeDateTimeSecondsSince1980, "dateTimeSecondsSince[1980]"},
	{models.DataTypeDouble, "double"},
	{models.DataTypeFloat, "float"},
	{models.DataTypeInteger, "integer"},
	{models.DataTypeString, "string"},
	{models.DataTypeTime, "time"},
	{models.DataTypeTimeSeconds, "timeSeconds"},
	{models.DelimiterTypeAcrossTimeWindows, "acrossTimeWindows"},
	{models.DelimiterTypeSameTimeWindow, "sameTimeWindow"},
	{models.FieldUsageTypeActive, "active"},
	{models.FieldUsageTypeAnalysisWeight, "analysisWeight"},
	{models.FieldUsageTypeFrequencyWeight, "frequencyWeight"},
	{models.FieldUsageTypeGroup, "group"},
	{models.FieldUsageTypeOrder, "order"},
	{models.FieldUsageTypePredicted, "predicted"},
	{models.FieldUsageTypeSupplementary, "supplementary"},
	{models.FieldUsageTypeTarget, "target"},
	{models.GapFalse, "false"},
	{models.GapTrue, "true"},
	{models.GapUnknown, "unknown"},
	{models.InterpolationMethodCubicSpline, "cubicSpline"},
	{models.InterpolationMethodExponentialSpline, "exponentialSpline"},
	{models.InterpolationMethodLinear, "linear"},
	{models.InterpolationMethodNone, "none"},
	{models.InvalidValueTreatmentMethodAsIs, "asIs"},
	{models.InvalidValueTreatmentMethodAsMissing, "asMissing"},
	{models.InvalidValueTreatmentMethodReturnInvalid, "returnInvalid"},
	{models.LinkFunctionCloglog, "cloglog"},
	{models.LinkFunctionIdentity, "identity"},
	{models.LinkFunctionLog, "log"},
	{models.LinkFunctionLogc, "logc"},
	{models.LinkFunctionLogit, "logit"},
	{models.LinkFunctionLoglog, "loglog"},
	{models.LinkFunctionNegbin, "negbin"},
	{models.LinkFunctionOddspower, "oddspower"},
	{models.LinkFunctionPower, "power"},
	{models.LinkFunctionProbit, "probit"},
	{models.MiningFunctionAssociationRules, "associationRules"},
	{models.MiningFunctionClassification, "classification"},
	{models.MiningFunctionClustering, "clustering"},
	{models.MiningFunctionMixed, "mixed"},
	{models.MiningFunctionRegression, "regression"},
	{models.MiningFunctionSequences, "sequences"},
	{models.MiningFunctionTimeSeries, "timeSeries"},
	{models.MissingValueStrategyAggregateNodes, "aggregateNodes"},
	{models.MissingValueStrategyDefaultChild, "defaultChild"},
	{models.MissingValueStrategyLastPrediction, "lastPrediction"},
	{models.MissingValueStrategyNone, "none"},
	{models.MissingValueStrategyNullPrediction, "nullPrediction"},
	{models.MissingValueStrategyWeightedConfidence, "weightedConfidence"},
	{models.MissingValueTreatmentMethodAsIs, "asIs"},
	{models.MissingValueTreatmentMethodAsMean, "asMean"},
	{models.MissingValueTreatmentMethodAsMedian, "asMedian"},
	{models.MissingValueTreatmentMethodAsMode, "asMode"},
	{models.MissingValueTreatmentMethodAsValue, "asValue"},
	{models.MultipleModelMethodAverage, "average"},
	{models.MultipleModelMethodMajorityVote, "majorityVote"},
	{models.MultipleModelMethodMax, "max"},
	{models.MultipleModelMethodMedian, "median"},
	{models.MultipleModelMethodModelChain, "modelChain"},
	{models.MultipleModelMethodSelectAll, "selectAll"},
	{models.MultipleModelMethodSelectFirst, "selectFirst"},
	{models.MultipleModelMethodSum, "sum"},
	{models.MultipleModelMethodWeightedAverage, "weightedAverage"},
	{models.MultipleModelMethodWeightedMajorityVote, "weightedMajorityVote"},
	{models.NNNormalizationMethodNone, "none"},
	{models.NNNormalizationMethodSimplemax, "simplemax"},
	{models.NNNormalizationMethodSoftmax, "softmax"},
	{models.NoTrueChildStrategyReturnLastPrediction, "returnLastPrediction"},
	{models.NoTrueChildStrategyReturnNullPrediction, "returnNullPrediction"},
	{models.OpTypeCategorical, "categorical"},
	{models.OpTypeContinuous, "continuous"},
	{models.OpTypeOrdinal, "ordinal"},
	{models.OutlierTreatmentMethodAsExtremeValues, "asExtremeValues"},
	{models.OutlierTreatmentMethodAsIs, "asIs"},
	{models.OutlierTreatmentMethodAsMissingValues, "asMissingValues"},
	{models.RegressionNormalizationMethodCauchit, "cauchit"},
	{models.RegressionNormalizationMethodCloglog, "cloglog"},
	{models.RegressionNormalizationMethodExp, "exp"},
	{models.RegressionNormalizationMethodLogit, "logit"},
	{models.RegressionNormalizationMethodLoglog, "loglog"},
	{models.RegressionNormalizationMethodNone, "none"},
	{models.RegressionNormalizationMethodProbit, "probit"},
	{models.RegressionNormalizationMethodSimplemax, "simplemax"},
	{models.RegressionNormalizationMethodSoftmax, "softmax"},
	{models.ResultFeatureAffinity, "affinity"},
	{models.ResultFeatureAntecedent, "antecedent"},
	{models.ResultFeatureClusterAffinity, "clusterAffinity"},
	{models.ResultFeatureClusterID, "clusterId"},
	{models.ResultFeatureConfidence, "confidence"},
	{models.ResultFeatureConsequent, "consequent"},
	{models.ResultFeatureDecision, "decision"},
	{models.ResultFeatureEntityAffinity, "entityAffinity"},
	{models.ResultFeatureEntityID, "entityId"},
	{models.ResultFeatureLeverage, "leverage"},
	{models.ResultFeatureLift, "lift"},
	{models.ResultFeaturePredictedDisplayValue, "predictedDisplayValue"},
	{models.ResultFeaturePredictedValue, "predictedValue"},
	{models.ResultFeatureProbability, "probability"},
	{models.ResultFeatureReasonCode, "reasonCode"},
	{models.ResultFeatureResidual, "residual"},
	{models.ResultFeatureRule, "rule"},
	{models.ResultFeatureRuleID, "ruleId"},
	{models.ResultFeatureRuleValue, "ruleValue"},
	{models.ResultFeatureStandardError, "standardError"},
	{models.ResultFeatureSupport, "support"},
	{models.ResultFeatureTransformedValue, "transformedValue"},
	{models.ResultFeatureWarning, "warning"},
	{models.RuleFeatureAntecedent, "antecedent"},
	{models.RuleFeatureConfidence, "confidence"},
	{models.RuleFeatureConsequent, "consequent"},
	{models.RuleFeatureLeverage, "leverage"},
	{models.RuleFeatureLift, "lift"},
	{models.RuleFeatureRule, "rule"},
	{models.RuleFeatureRuleID, "ruleId"},
	{models.RuleFeatureSupport, "support"},
	{models.SVMClassificationMethodOneAgainstAll, "OneAgainstAll"},
	{models.SVMClassificationMethodOneAgainstOne, "OneAgainstOne"},
	{models.SVMRepresentationCoefficients, "Coefficients"},
	{models.SVMRepresentationSupportVectors, "SupportVectors"},
	{models.TimeAnchorTypedateDaysSince0, "dateDaysSince[0]"},
	{models.TimeAnchorTypedateDaysSince1960, "dateDaysSince[1960]"},
	{models.TimeAnchorTypedateDaysSince1970, "dateDaysSince[1970]"},
	{models.TimeAnchorTypedateDaysSince1980, "dateDaysSince[1980]"},
	{models.TimeAnchorTypedateMonthsSince0, "dateMonthsSince[0]"},
	{models.TimeAnchorTypedateMonthsSince1960, "dateMonthsSince[1960]"},
	{models.TimeAnchorTypedateMonthsSince1970, "dateMonthsSince[1970]"},
	{models.TimeAnchorTypedateMonthsSince1980, "dateMonthsSince[1980]"},
	{models.TimeAnchorTypedateTimeMillisecondsSince0, "dateTimeMillisecondsSince[0]"},
	{models.TimeAnchorTypedateTimeMillisecondsSince1960, "dateTimeMillisecondsSince[1960]"},
	{models.TimeAnchorTypedateTimeMillisecondsSince1970, "dateTimeMillisecondsSince[1970]"},
	{models.TimeAnchorTypedateTimeMillisecondsSince1980, "dateTimeMillisecondsSince[1980]"},
	{models.TimeAnchorTypedateTimeSecondsSince0, "dateTimeSecondsSince[0]"},
	{models.TimeAnchorTypedateTimeSecondsSince1960, "dateTimeSecondsSince[1960]"},
	{models.TimeAnchorTypedateTimeSecondsSince1970, "dateTimeSecondsSince[1970]"},
	{models.TimeAnchorTypedateTimeSecondsSince1980, "dateTimeSecondsSince[1980]"},
	{models.TimeAnchorTypedateYearsSince0, "dateYearsSince[0]"},
	{models.TimeExceptionTypeExclude, "exclude"},
	{models.TimeExceptionTypeInclude, "include"},
	{models.TimeSeriesAlgorithmARIMA, "ARIMA"},
	{models.TimeSeriesAlgorithmExponentialSmoothing, "ExponentialSmoothing"},
	{models.TimeSeriesAlgorithmSeasonalTrendDecomposition, "SeasonalTrendDecomposition"},
	{models.TimeSeriesAlgorithmSpectralAnalysis, "SpectralAnalysis"},
	{models.TimeSeriesUsageLogical, "logical"},
	{models.TimeSeriesUsageOriginal, "original"},
	{models.TimeSeriesUsagePrediction, "prediction"},
	{models.ValidTimeSpecExcludeFromTo, "excludeFromTo"},
	{models.ValidTimeSpecExcludeSet, "excludeSet"},
	{models.ValidTimeSpecIncludeAll, "includeAll"},
	{models.ValidTimeSpecIncludeFromTo, "includeFromTo"},
	{models.ValidTimeSpecIncludeSet, "includeSet"},
	{models.AggregateFunctionTypeAverage, "average"},
	{models.AggregateFunctionTypeCount, "count"},
	{models.AggregateFunctionTypeMax, "max"},
	{models.AggregateFunctionTypeMin, "min"},
	{models.AggregateFunctionTypeMultiset, "multiset"},
	{models.AggregateFunctionTypeSum, "sum"},
	{models.AnovaRowTypeError, "Error"},
	{models.AnovaRowTypeModel, "Model"},
	{models.AnovaRowTypeTotal, "Total"},
	{models.CompoundPredicateOperatorAnd, "and"},
	{models.CompoundPredicateOperatorOr, "or"},
	{models.CompoundPredicateOperatorSurrogate, "surrogate"},
	{models.CompoundPredicateOperatorXor, "xor"},
	{models.IntervalTypeClosedClosed, "closedClosed"},
	{models.IntervalTypeClosedOpen, "closedOpen"},
	{models.IntervalTypeOpenClosed, "openClosed"},
	{models.IntervalTypeOpenOpen, "openOpen"},
	{models.RankOrderAscending, "ascending"},
	{models.RankOrderDescending, "descending"},
	{models.RankBasisAffinity, "affinity"},
	{models.RankBasisConfidence, "confidence"},
	{models.RankBasisLeverage, "leverage"},
	{models.RankBasisLift, "lift"},
	{models.RankBasisSupport, "support"},
	{models.OutputFieldAlgorithmExclusiveRecommendation, "exclusiveRecommendation"},
	{models.OutputFieldAlgorithmRecommendation, "recommendation"},
	{models.OutputFieldAlgorithmRuleAssociation, "ruleAssociation"},
	{models.SimplePredicateOperatorEqual, "equal"},
	{models.SimplePredicateOperatorGreaterOrEqual, "greaterOrEqual"},
	{models.SimplePredicateOperatorGreaterThan, "greaterThan"},
	{models.SimplePredicateOperatorIsMissing, "isMissing"},
	{models.SimplePredicateOperatorIsNotMissing, "isNotMissing"},
	{models.SimplePredicateOperatorLessOrEqual, "lessOrEqual"},
	{models.SimplePredicateOperatorLessThan, "lessThan"},
	{models.SimplePredicateOperatorNotEqual, "notEqual"},
	{models.SimpleSetPredicateOperatorIsIn, "isIn"},
	{models.SimpleSetPredicateOperatorIsNotIn, "isNotIn"},
	{models.CastIntegerTypeCeiling, "ceiling"},
	{models.CastIntegerTypeFloor, "floor"},
	{models.CastIntegerTypeRound, "round"},
	{models.TreeModelSplitCharacteristicBinarySplit, "binarySplit"},
	{models.TreeModelSplitCharacteristicMultiSplit, "multiSplit"},
	{models.ValueValidInvalid, "invalid"},
	{models.ValueValidMissing, "missing"},
	{models.ValueValidValid, "valid"},
	{models.ArrayTypeTypeInt, "int"},
	{models.ArrayTypeTypeReal, "real"},
	{models.ArrayTypeTypeString, "string"},
}
