package main

const histAssume = "git 2.43's object store, tree diff and zero-context diff are the reference; the generator's edit operations bound the histories explored"

func init() {
	note := map[string]string{
		"C01": "Every delivered file version of thousands of generated histories is compared with the tree content; sampled, not exhaustive.",
		"C02": "Every delivered line's credit is compared with an independently propagated credit set; sampled, not exhaustive.",
		"C03": "The delivered sequence is checked online for exactly-once and parent-first order on generated graphs; sampled, not exhaustive.",
		"C04": "The reported path set of every commit is compared with git's tree diffs against each parent; sampled, not exhaustive.",
	}
	tech := map[string]string{
		"C01": "differential runtime monitor: delivered lines against tree contents of generated histories",
		"C02": "differential runtime monitor: delivered credits against an independent credit propagation",
		"C03": "online order and exactly-once monitor on the result stream",
		"C04": "differential runtime monitor: reported paths against git tree diffs",
	}
	rule := map[string]string{
		"C01": "one evaluation is one generated repository processed from the start; a situation is one commit that changes files, keyed by change kinds, parent count and line counts",
		"C02": "as C01; additionally keyed by the number of carried lines",
		"C03": "as C01",
		"C04": "as C01",
	}
	for _, id := range []string{"C01", "C02", "C03", "C04"} {
		id := id
		register(&Check{ID: id, Quick: 3200, Thorough: 30000, Build: "lite", Level: "exploration", Min: 200,
			Tech: tech[id], Note: note[id], Rule: rule[id], Assume: []string{histAssume},
			Run: func(c *Case) {
				f := randomFeatures(c.Rng)
				f.Detach = chance(c.Rng, 0.1)
				histCase(c, f, id)
			}})
	}
}
