package main

import (
	"fmt"
	"sort"
)

// acceptance reports how much of the generated SQL the parser takes, for
// looking after the generator; it decides nothing.
func acceptance(seed, n uint64) {
	rej := map[string]int{}
	ex := map[string]string{}
	ok, bytes := 0, 0
	small := 0
	for i := uint64(0); i < n; i++ {
		r := NewRand(seed, hashString("acceptance"), i)
		d := pickDialect(r)
		t := genScript(r, d, 1, true)
		op := &Op{Kind: "parse", Dialect: d, SQL: Bytes(t.String()), Calls: []string{"sql"}}
		bytes += len(op.SQL)
		if len(op.SQL) < 80 {
			small++
		}
		out := alone(op)
		if out.Class == "ok" && out.Res.Err == nil {
			ok++
			continue
		}
		k := out.Class
		if out.Res != nil && out.Res.Err != nil {
			k = short(out.Res.Err.Error(), 60)
		}
		rej[k]++
		if e, seen := ex[k]; !seen || len(op.SQL) < len(e) {
			ex[k] = string(op.SQL)
		}
	}
	fmt.Printf("%d of %d accepted, %d bytes each, %d short\n", ok, n, bytes/int(n), small)
	var ks []string
	for k := range rej {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return rej[ks[i]] > rej[ks[j]] })
	for i, k := range ks {
		if i > 40 {
			break
		}
		fmt.Printf("%5d %s\n      %q\n", rej[k], k, short(ex[k], 200))
	}
}
