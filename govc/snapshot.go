package main

import (
	"golang.org/x/tools/go/ssa"
	"maps"
	"slices"
)

// Every function is verified from the same tables, so that the queries of one function do not
// depend on which functions the same process verified before it.
type tables struct{ restore func() }

func cloneSlices[K comparable, V any](m map[K][]V) map[K][]V {
	out := make(map[K][]V, len(m))
	for k, v := range m {
		out[k] = slices.Clone(v)
	}
	return out
}

func takeSnapshot(p *Program) *tables {
	tt, tc, fn := maps.Clone(termTab), termCount, freshN
	st, so, os := maps.Clone(structTab), slices.Clone(structOrder), maps.Clone(opaqueSorts)
	bt, bo, ht := maps.Clone(boxTab), slices.Clone(boxOrder), maps.Clone(heapTab)
	ao := maps.Clone(axOwner)
	ca, ac, ai, as := maps.Clone(ctorAccs), maps.Clone(accCtor), maps.Clone(accIdx), maps.Clone(accSort)
	sl, fs := maps.Clone(strLitIDs), maps.Clone(funSigs)
	fa, sa := cloneSlices(funAxioms), cloneSlices(symAxioms)
	fids, fidFn := maps.Clone(p.fids), maps.Clone(p.fidFn)
	cg, cgo, stored := maps.Clone(p.constG), maps.Clone(p.constGOK), maps.Clone(p.stored)
	tm, gx, gl := maps.Clone(p.typeMemo), cloneSlices(p.ginvAx), cloneSlices(p.ginvLoad)
	bg := maps.Clone(p.badG)
	return &tables{func() {
		termTab, termCount, freshN = maps.Clone(tt), tc, fn
		structTab, structOrder, opaqueSorts = maps.Clone(st), slices.Clone(so), maps.Clone(os)
		boxTab, boxOrder, heapTab = maps.Clone(bt), slices.Clone(bo), maps.Clone(ht)
		axOwner = maps.Clone(ao)
		ctorAccs, accCtor, accIdx, accSort = maps.Clone(ca), maps.Clone(ac), maps.Clone(ai), maps.Clone(as)
		strLitIDs, funSigs = maps.Clone(sl), maps.Clone(fs)
		strSyms = map[string]string{}
		funAxioms, symAxioms = cloneSlices(fa), cloneSlices(sa)
		p.fids, p.fidFn = maps.Clone(fids), maps.Clone(fidFn)
		p.constG, p.constGOK, p.stored = maps.Clone(cg), maps.Clone(cgo), maps.Clone(stored)
		p.typeMemo, p.ginvAx, p.ginvLoad = maps.Clone(tm), cloneSlices(gx), cloneSlices(gl)
		p.badG = maps.Clone(bg)
		p.LoopCache = map[*ssa.Function]*loopInfo{}
	}}
}
