package props

import (
	"regexp"
	"strconv"

	"github.com/renthraysk/xtorm/collation"

	"verif.local/mc/engine"
)

var number = regexp.MustCompile(`[0-9]+`)

func checkCollation(r *engine.Run, id uint64) {
	c := collation.Collation(id)
	if uint64(c) != id {
		r.Prune()
	}
	s := c.String()
	if want, ok := mysqlCollations[id]; ok {
		if s != want {
			r.Failf("collation %d prints as %q, MySQL calls it %q", id, s, want)
		}
	} else {
		for _, n := range mysqlCollations {
			if s == n {
				r.Failf("unknown collation %d prints as %q", id, s)
			}
		}
		found := false
		for _, n := range number.FindAllString(s, -1) {
			found = found || n == strconv.FormatUint(id, 10)
		}
		if !found {
			r.Failf("unknown collation %d prints as %q, which does not show its number", id, s)
		}
	}
	if c.IsBinary() != (id == 63) {
		r.Failf("collation %d (%s): IsBinary reports %v", id, s, c.IsBinary())
	}
	r.Step()
	r.StateS(s)
}

func init() {
	register(&Prop{ID: "C24",
		Assumptions: []string{"the reference table is MySQL 8.0.27's INFORMATION_SCHEMA.COLLATIONS as written down in mc/props/collations.go"},
		Scenarios: func(t Tier) []engine.Scenario {
			wide := uints64(t.Thorough)
			n := t.pick(1<<16, 1<<24)
			return []engine.Scenario{
				{Name: "constants", Bound: "every exported constant", Body: func(r *engine.Run) {
					c := collationConstants[r.Choose(len(collationConstants), "constant")]
					if mysqlCollations[uint64(c.c)] != c.name {
						r.Failf("the constant of %s has the value %d, which is %q in MySQL", c.name, uint64(c.c), mysqlCollations[uint64(c.c)])
					}
					if s := c.c.String(); s != c.name {
						r.Failf("the constant of %s prints as %q", c.name, s)
					}
					r.Step()
					r.StateS(c.name)
				}},
				{Name: "identifiers", Bound: "every id below " + strconv.Itoa(n), Body: func(r *engine.Run) {
					hi := r.Choose(n>>8, "id / 256")
					for lo := 0; lo < 256; lo++ {
						checkCollation(r, uint64(hi<<8+lo))
					}
					r.Cases(256)
				}},
				{Name: "wide identifiers", Bound: strconv.Itoa(len(wide)) + " structured 64-bit ids", Body: func(r *engine.Run) {
					checkCollation(r, wide[r.Choose(len(wide), "id")])
				}},
			}
		}})
}
