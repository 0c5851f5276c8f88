package zkmc

// Spaces that are explored once more by a program built for a 32-bit processor (GOARCH=386), where
// int, uint and the words of a big integer have 32 bits.
var onW32 = map[string][]string{
	"C01": {"toy-abc-3", "toy-inequality-5", "toy-generators-7", "secp-consistency", "secp-abc"},
	"C02": {"toy-inequality-5", "secp-consistency"},
	"C03": {"secp-gspfs", "secp-equivalence", "toy-gspfs-5", "toy-consistency-3"},
	"C04": {"secp-disjunctive", "toy-abc-3", "toy-disjunctive-3"},
	"C05": {"model-group", "refused"},
	"C06": {"toy-7-entries-1-table-2", "toy-5-entries-2-table-3", "model-group"},
	"C07": {"hash", "model-group-gspfs", "model-group-equivalence", "model-group-disjunctive", "model-group-consistency", "model-group-abc", "toy-5"},
	"C08": {"draws", "limits", "masks", "canonical"},
	"C10": {"primitives", "entries", "fields-gspfs", "fields-equivalence", "fields-disjunctive", "fields-range", "toy-range-11"},
	"C11": {"model-group-gspfs", "model-group-equivalence", "model-group-disjunctive", "model-group-consistency", "model-group-abc", "model-group-inequality", "model-group-range", "secp-range", "short-range", "short-abc"},
	"C12": {"values", "byte-strings", "bytes", "histories", "items", "lengths", "one-failing-call", "all-22-bit"},
	"C13": {"toy-13", "toy-19", "secp"},
	"C14": {"toy-5", "toy-7", "single-toy-5", "secp"},
	"C15": {"single-secp", "single-model-group"},
	"C18": {"constants", "addition", "boundary coordinates", "boundary scalars", "scalar lengths", "scalar split", "signed digits", "tables", "on-curve test", "jacobian addition", "jacobian doubling"},
	"C19": {"normalize", "set and text", "words", "small operands", "inverse", "through the curve"},
	"C20": {"coordinates", "formats", "private keys", "round trip"},
	"C21": {"sign"},
	"C22": {"compact", "equality", "integers", "serialize", "short strings"},
	"C23": {"alterations", "crafted", "round trip", "shared secret", "short secrets"},
	"C24": {"what the provers return", "all gspfs proofs"},
	"C25": {"toy-5", "model-group", "secp"},
}

func init() {
	for id, names := range onW32 {
		ck := checks[id]
		if ck == nil {
			panic("harness: no check " + id)
		}
		var more []Unit
		for _, u := range ck.Units {
			for _, n := range names {
				if u.Name == n {
					more = append(more, u)
				}
			}
		}
		if len(more) < len(names) || len(more) == 0 {
			panic("harness: no such unit in " + id)
		}
		for _, u := range more {
			u.Name += " (32-bit)"
			u.Bound += "; as a 32-bit program"
			u.W32 = true
			ck.Units = append(ck.Units, u)
		}
	}
}
