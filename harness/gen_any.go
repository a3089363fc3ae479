package main

// ornament adds what the schema allows and evaluation does not read: names,
// descriptions, statistics. Different models may well have the same.
func (g *Gen) ornament(doc *El, p float64) int {
	n := 0

	attr := func(e *El, k string, vs ...string) {
		if _, has := e.Has(k); !has && g.P(p) {
			e.set(k, g.Str(vs...))
			n++
		}
	}

	kid := func(e *El, k *El) {
		if e.Kid(k.Name) == nil && g.P(p/2) {
			at := g.Intn(len(e.Kids) + 1)
			e.Kids = append(e.Kids[:at:at], append([]*El{k}, e.Kids[at:]...)...)
			n++
		}
	}

	doc.walk(func(e *El) {
		switch e.Name {
		case "TreeModel", "RegressionModel", "MiningModel":
			attr(e, "modelName", "m", "m", "model", "y", "1")
			attr(e, "algorithmName", "CART", "m", "xgb")
			attr(e, "isScorable", "true")

			if e.Name == "TreeModel" {
				attr(e, "splitCharacteristic", "multiSplit", "binarySplit")
			}

			kid(e, el("ModelStats"))
			kid(e, el("ModelExplanation"))
			kid(e, el("Extension", "name", "score", "value", "7"))
		case "PMML":
			kid(e, el("MiningBuildTask").add(el("Extension", "name", "x")))
			kid(e, el("Extension", "name", "y", "value", "7"))
		case "Header":
			attr(e, "description", "d", "")
			attr(e, "modelVersion", "2", "m")
			kid(e, el("Application", "name", "a", "version", "1"))
		case "DataField", "DerivedField":
			attr(e, "displayName", "x", "y", "a field", "")
		case "OutputField":
			attr(e, "displayName", "score", "y", "p")
		case "MiningField":
			attr(e, "importance", "0.5", "0", "1")
		case "Node":
			kid(e, el("Partition", "name", "p"))
			kid(e, el("Extension", "name", "score", "value", "7"))
		case "Segmentation":
			kid(e, el("Extension", "name", "s"))
		case "Segment":
			attr(e, "weight", "2", "0.5", "0", "1")
		}
	})

	return n
}

// anyDoc builds a document with a model of a random kind, for the properties
// which hold whatever the model.
func (g *Gen) anyDoc() *El {
	switch g.Intn(11) {
	case 0, 1:
		o := &treeOpts{reg: g.P(0.3), dist: g.F(0, 0.5, 1), noTrue: g.Str("", "returnLastPrediction", "returnNullPrediction", "returnLastPrediction"), exhaust: g.F(0.5, 0.9), depth: g.Range(1, 4),
			strategy: g.Str("", "none", "lastPrediction", "nullPrediction", "defaultChild"), penalty: g.Str("", "0.5"), noTarget: g.P(0.1)}
		return g.doc(o.reg, g.tree(o))
	case 2, 3:
		o := &treeOpts{dist: g.F(0.5, 1), noTrue: g.Str("", "returnLastPrediction"), exhaust: g.F(0.5, 0.9), depth: g.Range(1, 4), counts: true,
			strategy: g.Str("weightedConfidence", "aggregateNodes")}
		return g.doc(false, g.tree(o))
	case 4:
		return g.doc(true, g.regression(&regOpts{exps: true, cats: true, terms: g.P(0.3)}, g.Str(links...), "prediction"))
	case 5:
		return g.doc(false, g.classifier(&regOpts{cats: true}, g.Str("softmax", "logit", "cauchit")))
	case 6, 7:
		reg := g.P(0.5)
		return g.doc(reg, g.ensemble(reg, g.Str("sum", "average"), g.P(0.4), 1))
	case 8:
		m, _ := g.chain(1)
		return g.doc(false, m)
	case 9:
		reg := g.P(0.4)
		return g.doc(reg, g.first(reg, 0.3))
	}

	if g.P(0.3) {
		return g.mapDoc(func(string) {})
	}

	// derived fields over the generator's own fields
	e := &exprGen{Gen: g}

	for _, f := range g.fields {
		switch f.typ {
		case "double", "float", "integer":
			e.nums = append(e.nums, f.name)
		case "string":
			e.strs = append(e.strs, f.name)
		case "boolean":
			e.flag = append(e.flag, f.name)
		}

		e.all = append(e.all, f.name)
	}

	var ds []*El
	for i := e.Range(1, 3); i > 0; i-- {
		ds = append(ds, e.derive("derived "+string(rune('a'+i))))
	}

	last := ds[len(ds)-1]
	mdl := e.reader(last.A("name"), last.A("dataType"), append([]string{"true", "false"}, e.strings()...))

	if last.A("dataType") == "boolean" {
		mdl = e.reader(last.A("name"), "boolean", []string{"true", "false"})
	}

	return e.place(mdl.A("functionName") == "regression", mdl, ds)
}

// sprinkle adds replacements to the schema of the outermost model.
func (g *Gen) sprinkle(doc *El) {
	top := doc.All(modelNames...)[0]

	for _, mf := range top.Kid("MiningSchema").All("MiningField") {
		for _, f := range g.fields {
			if f.name == mf.A("name") && g.P(0.3) {
				v := g.literal(f)

				switch f.typ {
				case "double", "float":
					v = g.num(g.F(modest...))
				case "integer":
					v = "1"
				}

				mf.set("missingValueReplacement", v)
			}
		}
	}
}
