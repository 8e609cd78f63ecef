package main

import (
	"fmt"
	"strings"
)

// What the evidence files say besides the counts of the run.

var baseTrust = []string{
	"go/packages, go/types and go/ssa (golang.org/x/tools) represent the source the build compiles",
	"the models of library functions in /verif/checker (DESIGN.md lists them)",
}

const numRule = "every obligation (index, slice bounds, conversion, assertion, dereference, division, make, partial library call) is entailed by the linear facts that hold on every path to it: branch conditions, inferred loop invariants, summaries of callees"

// otherLevel: checks whose argument is not a complete one for every input.
var otherLevel = map[string]string{
	"P09": "the lists of records followed are the single records and pairs that two table entries need to interfere; longer lists are not followed",
	"P10": "the lists of records followed are a file with and without its signature, with a foreign signature, and with one more file; longer lists are not followed",
	"P12": "single transfers and ordered pairs of transfers are followed; longer lists are not",
	"P14": "bits that pass through text, enum tables, times or arithmetic other than shifts, masks and decimal digits are compared by what they depend on (which input bytes), not by value (bits_by_dependence); pairs listed under undecided_pairs (BCD strings) are not claimed",
	"P16": "dumps of up to three records (five in the thorough run) are followed; the loop carries nothing but the offset and the list",
	"P22": "file lists of up to three names are followed; the loop carries nothing from one name to the next",
	"P24": "a constant allowance of 64K elements is granted to an allocation whose size is checked against the data before the function succeeds",
	"P25": "obligations whose truth rests on a nil receiver that no caller passes are counted as undecided and not claimed",
	"P26": "lengths up to a bound are followed; records of fixed layout are opaque parts whose reader and writer are inverse (P14, P15); files under undecided are not claimed",
	"P27": "setters under undecided_setters are not claimed: their value passes through operations that are not modelled",
	"P30": "the inference of the card type is followed on dumps of one and two records (three in the thorough run); conditions and values under undecided are not claimed",
	"P29": "the element readers, and the order of the elements in a list, are outside; fields listed as undecided are not claimed",
	"P11": "length tests inside record loops and decoders that keep the transfer whole are not compared, card downloads are outside, transfers listed as undecided are not claimed",
	"P28": "an error end that some paths reach is a finding only when input bytes that reach it are found",
}

var ruleOf = map[string]string{
	"P11": "the size of every transfer type, and the length its decoder accepts, is the polynomial of its layout over the counts in the data",
	"P29": "the bytes a field is made of lie at the position, for lists at the position in every record, that the layout gives them",
	"P27": "every value that reaches a setter of a text field passes a step after which it is valid UTF-8",
	"P01": numRule,
	"P03": numRule,
	"P25": numRule,
	"P02": "every loop has a lexicographic ranking of linear quantities (bytes left, counter to its bound, reader or scanner position) that provably decreases in every round; recursion goes over message types only",
	"P13": "codes within a table are distinct; every read of a code extension on the decoding and the encoding side names the same extension; every integer that meets an enum does so through a table; every code page decodes and encodes with one character set",
	"P15": "the number of bytes each writer appends is, on every path that succeeds, the number its reader requires",
	"P24": "every allocation size and every number of allocating rounds is bounded by a linear expression over bytes that are present",
}

// oblOf: the counts that are this check's obligations.
var oblOf = map[string][]string{
	"P02": {"loops"},
	"P13": {"codes", "code_page_entries", "enum_conversions", "table_call_sites", "extension_reads"},
	"P24": {"allocation_sites", "loops"},
}

func (r *Report) normalise(violations int) {
	if p, ok := r.Cov["proof"].(map[string]any); ok {
		delete(r.Cov, "proof")
		for k, v := range p {
			r.Cov[k] = v
		}
	}
	// one count, one name
	for _, f := range r.floors {
		for k, v := range r.Cov {
			if k != f && v == r.Cov[f] {
				delete(r.Cov, f)
				break
			}
		}
	}
	if _, ok := r.Cov["obligations"]; !ok {
		n, ok := 0, false
		for _, k := range oblOf[r.Prop] {
			if x, is := r.Cov[k].(int); is {
				n += x
				ok = true
			}
		}
		if ok {
			r.Cov["obligations"] = n
			if len(oblOf[r.Prop]) == 1 {
				delete(r.Cov, oblOf[r.Prop][0])
			}
		}
	}
	rule := ruleOf[r.Prop]
	if s, ok := r.Cov["rule"].(string); ok {
		rule = s
	} else if s, ok := r.Cov["explanation"].(string); ok && rule == "" {
		rule = s
	}
	if n, ok := r.Cov["obligations"].(int); ok {
		und, _ := r.Cov["undecided"].(int)
		r.Cov["discharged"] = n - violations - und
	}
	r.Cov["checker_cmd"] = fmt.Sprintf("./run.sh %s %s", r.Prop, r.Tier)
	r.Cov["trusted_base"] = baseTrust
	if lim, ok := otherLevel[r.Prop]; ok {
		r.Level = "other"
		r.Cov["explanation"] = strings.TrimSuffix(rule, ".") + ". Limits: " + lim
		delete(r.Cov, "rule")
		return
	}
	delete(r.Cov, "explanation")
	r.Cov["rule"] = rule
}
