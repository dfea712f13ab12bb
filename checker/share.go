package main

import (
	"go/token"
	"go/types"
)

// C37: the share of the entries Clean removes.

func shareCheck(c *Ctx, r *Report) {
	for _, cm := range cacheModels(c, r) {
		m := cm.m
		fn := cm.method(r, "Clean")
		if fn == nil {
			continue
		}
		run := &cacheRun{cm: cm, r: r, fn: fn}
		var n0, share *Term
		outs := run.run(func(st *State, args []*Term) {
			if len(args) < 2 {
				return
			}
			tt := run.e.tt
			perc := args[1]
			st.f.assume(tt.LeT(tt.Int(0), perc), true)
			st.f.assume(tt.LeT(perc, tt.Int(100)), true)
			// nothing expires
			st.f.assume(tt.EqInt(run.setting(st, cm.expi), tt.Int(0)), true)
			n0 = run.e.mapLen(st, run.ver(st))
			typ := types.Typ[types.Int]
			share = run.e.binop(token.QUO, run.e.binop(token.MUL, n0, perc, typ, typ), tt.Int(100), typ, typ)
			// what arithmetic gives for a percentage
			st.f.assume(tt.LeT(tt.Int(0), share), true)
			st.f.assume(tt.LeT(share, n0), true)
			// every entry has exactly one place in the list
			st.f.assume(tt.EqInt(n0, tt.Len(run.list(st))), true)
		})
		for _, o := range outs {
			if o.Panic || share == nil {
				continue
			}
			st, tt := o.St, run.e.tt
			if st.f.bad {
				continue
			}
			r.ob("share-removed")
			removed := st.ghost["removed"]
			if !st.f.known(tt.EqInt(removed, share), true) {
				r.fail(m, "share-removed", fn, o.Pos, st, "Clean removes %s entries of %s, not the percentage asked for", st.f.norm(removed).str(5), n0.str(3))
			}
		}
	}
	r.need("share-removed", 2)
}

func init() {
	register("C37", "share removed by Clean", cacheHow+"Clean is analysed with a percentage between 0 and 100 and without expiration; the number of entries removed at each exit must be the number of entries at the entry times the percentage divided by 100, rounded down.", shareCheck)
}
