package main

// mixes says which scenarios decide each property, and in what proportion.
var mixes = map[string][]mix{
	"C01": {{"life", 40}, {"times", 20}, {"twin", 20}, {"libshared", 20}, {"libdecode", 20}, {"libtimes", 10}, {"libseeds", 10}, {"libindex", 10}, {"libexport", 10}, {"entry", 10}, {"ttl", 10}, {"chain", 10}},
	"C02": {{"chain", 60}, {"files", 20}, {"passwords", 20}, {"lines", 10}, {"entry", 5}, {"corrupt", 10}, {"rng", 5}},
	"C03": {{"twin", 50}, {"libshared", 40}, {"life", 5}, {"libindex", 10}, {"libexport", 10}, {"times", 10}, {"ttl", 10}, {"chain", 10}},
	"C04": {{"corrupt", 50}, {"lines", 20}, {"libdecode", 40}, {"chain", 10}, {"entry", 10}},
	"C05": {{"passwords", 40}, {"libdecode", 40}, {"chain", 20}, {"libreaders", 10}, {"libshared", 10}},
	"C06": {{"rng", 30}, {"libreaders", 30}, {"salts", 5}, {"libmany", 10}, {"passwords", 20}, {"chain", 10}, {"libshared", 10}},
	"C07": {{"libprotect", 60}, {"libprotecttwo", 5}, {"keyenc", 20}, {"libexport", 20}, {"passwords", 10}},
	"C08": {{"libexport", 40}, {"twin", 40}, {"libprotect", 4}, {"times", 10}, {"ttl", 10}, {"keyenc", 5}, {"faults", 10}},
	"C09": {{"libexport", 40}, {"twin", 30}, {"ttl", 15}, {"times", 15}, {"libindex", 10}, {"life", 3}, {"libprotect", 4}, {"keyenc", 2}},
	"C10": {{"faults", 60}, {"files", 20}, {"chain", 10}, {"usage", 10}, {"lines", 10}, {"ttl", 10}, {"rng", 10}, {"passwords", 10}, {"corrupt", 5}, {"keyenc", 1}},
	"C11": {{"files", 60}, {"faults", 20}, {"chain", 10}, {"usage", 10}, {"twin", 5}, {"libexport", 5}, {"corrupt", 5}},
	"C12": {{"entry", 80}, {"twin", 10}, {"chain", 5}, {"corrupt", 10}},
	"C13": {{"lines", 50}, {"corrupt", 20}, {"entry", 10}, {"libdecode", 20}, {"twin", 20}, {"chain", 10}},
	"C14": {{"passwords", 80}, {"chain", 10}, {"keyenc", 3}, {"rng", 10}},
	"C15": {{"faults", 40}, {"passwords", 30}, {"entry", 20}, {"usage", 10}, {"corrupt", 10}, {"rng", 10}, {"ttl", 5}, {"files", 10}, {"keyenc", 1}},
	"C16": {{"usage", 40}, {"entry", 20}, {"lines", 20}, {"passwords", 10}, {"corrupt", 10}, {"faults", 10}, {"libtimes", 10}, {"libdecode", 10}, {"ttl", 5}, {"twin", 5}},
	"C17": {{"libshared", 60}, {"libseeds", 15}, {"libexport", 10}, {"libreaders", 5}, {"libmany", 5}, {"libdecode", 10}},
	"C18": {{"libindex", 50}, {"twin", 30}, {"libshared", 10}, {"times", 5}, {"libexport", 5}},
	"C19": {{"times", 40}, {"libtimes", 40}, {"twin", 15}, {"ttl", 10}, {"libexport", 5}},
	"C20": {{"ttl", 50}, {"libtimes", 40}, {"twin", 15}, {"times", 15}, {"libexport", 5}},
	"C21": {{"rng", 40}, {"libreaders", 30}, {"fresh", 4}, {"libmany", 15}, {"times", 10}, {"faults", 10}},
	"C22": {{"faults", 40}, {"passwords", 20}, {"chain", 15}, {"entry", 10}, {"corrupt", 15}, {"lines", 10}, {"ttl", 5}, {"files", 10}, {"life", 5}, {"keyenc", 2}, {"rng", 5}},
	"C26": {{"entry", 60}, {"lines", 40}, {"passwords", 5}, {"chain", 15}, {"corrupt", 15}, {"twin", 5}, {"rng", 10}, {"times", 5}},
}

// quickN is the number of stories of a quick check; a thorough one runs until
// its time is up.
var quickN = map[string]int64{
	"C01": 4000, "C02": 15000, "C03": 8000, "C04": 25000, "C05": 8000, "C06": 15000, "C07": 1000, "C08": 6000,
	"C09": 5000, "C10": 12000, "C11": 25000, "C12": 20000, "C13": 25000, "C14": 5000, "C15": 12000, "C16": 18000,
	"C17": 25000, "C18": 20000, "C19": 25000, "C20": 25000, "C21": 25000, "C22": 5000, "C26": 15000,
}

// firsts: the scenario of a property's first stories, too slow for the mix.
var firsts = map[string]mix{"C01": {"real", 8}, "C03": {"real", 4}, "C05": {"real", 8}}

func amount(prop, tier string) int64 {
	if tier == "thorough" {
		return 1 << 40
	}
	if n := quickN[prop]; n > 0 {
		return n
	}
	return 2000
}
