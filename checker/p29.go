package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
)

func init() { checks["P29"] = check{level: "other", run: runFieldPlaces} }

// P29: every field of a decoded transfer of a vehicle unit is read from its place.
//
// The decoders are followed as in P11; what each field is set to is compared with the
// place the layout gives it: a fixed position, or one in every record of a list.

// place of a field in a part of the layout; bits: 0 the whole, 1 the low, 2 the high
// half of a byte.
type fieldPlace struct {
	field string // message.field, or a message that is read as a whole
	at, n int64
	bits  int
}

const isList = 3

// fieldLayout: by transfer and part, see transferLayout.
var fieldLayout = map[string]map[int][]fieldPlace{
	"OVERVIEW_GEN1": {
		0: {
			{"OverviewGen1.MemberStateCertificate", 0, 194, 0},
			{"OverviewGen1.VuCertificate", 194, 194, 0},
			{"OverviewGen1.VehicleIdentificationNumber", 388, 17, 0},
			{"OverviewGen1.VehicleRegistrationWithNation", 405, 15, 0},
			{"OverviewGen1.CurrentDateTime", 420, 4, 0},
			{"DownloadablePeriod.MinTime", 424, 4, 0},
			{"DownloadablePeriod.MaxTime", 428, 4, 0},
			{"OverviewGen1.DriverSlotCard", 432, 1, 1},
			{"OverviewGen1.CoDriverSlotCard", 432, 1, 2},
			{"OverviewGen1_DownloadActivity.DownloadingTime", 433, 4, 0},
			{"OverviewGen1_DownloadActivity.FullCardNumber", 437, 18, 0},
			{"OverviewGen1_DownloadActivity.CompanyOrWorkshopName", 455, 36, 0},
		},
		1: {
			{"OverviewGen1_CompanyLock.LockInTime", 0, 4, 0},
			{"OverviewGen1_CompanyLock.LockOutTime", 4, 4, 0},
			{"OverviewGen1_CompanyLock.CompanyName", 8, 36, 0},
			{"OverviewGen1_CompanyLock.CompanyAddress", 44, 36, 0},
			{"OverviewGen1_CompanyLock.CompanyCardNumber", 80, 18, 0},
		},
		2: {
			{"OverviewGen1_ControlActivity.ControlType", 0, 1, 0},
			{"OverviewGen1_ControlActivity.ControlTime", 1, 4, 0},
			{"OverviewGen1_ControlActivity.ControlCardNumber", 5, 18, 0},
			{"OverviewGen1_ControlActivity.DownloadPeriodBeginTime", 23, 4, 0},
			{"OverviewGen1_ControlActivity.DownloadPeriodEndTime", 27, 4, 0},
		},
		3: {{"OverviewGen1.Signature", 0, 128, 0}},
	},
	"ACTIVITIES_GEN1": {
		0: {
			{"ActivitiesGen1.DateOfDay", 0, 4, 0},
			{"ActivitiesGen1.OdometerMidnightKm", 4, 3, 0},
		},
		1: {{"VuCardIWRecord", 0, 129, 0}},
		2: {{"ActivityChangeInfo", 0, 2, 0}},
		3: {
			{"ActivitiesGen1_PlaceRecord.EntryTime", 18, 4, 0},
			{"ActivitiesGen1_PlaceRecord.EntryType", 22, 1, 0},
			{"ActivitiesGen1_PlaceRecord.Country", 23, 1, 0},
			{"ActivitiesGen1_PlaceRecord.Region", 24, 1, 0},
			{"ActivitiesGen1_PlaceRecord.OdometerKm", 25, 3, 0},
		},
		4: {{"SpecificConditionRecord", 0, 5, 0}},
		5: {{"ActivitiesGen1.Signature", 0, 128, 0}},
	},
}

// fieldLists: the lists the records of a part are kept in.
var fieldLists = map[string]map[int]string{
	"OVERVIEW_GEN1":   {1: "OverviewGen1.CompanyLocks", 2: "OverviewGen1.ControlActivities"},
	"ACTIVITIES_GEN1": {1: "ActivitiesGen1.CardIwData", 2: "ActivitiesGen1.ActivityChanges", 3: "ActivitiesGen1.Places", 4: "ActivitiesGen1.SpecificConditions"},
}

func runFieldPlaces(c *Ctx, r *Report) {
	lens := map[string]bool{}
	undecided := []string{}
	obl, decided, decoders := 0, 0, 0
	for _, f := range sortedFuncs(c.P.All) {
		p := funcPkg(f)
		if p == nil || !isRepoFunc(f) || f.Parent() != nil || len(f.Blocks) == 0 || !strings.HasSuffix(p.Path(), "/internal/vu") || f.Synthetic != "" {
			continue
		}
		sig := f.Signature
		data := 0
		for i := 0; i < sig.Params().Len(); i++ {
			if isByteSlice(sig.Params().At(i).Type()) {
				data++
			}
		}
		if data != 1 || sig.Results().Len() != 2 || !isErrorType(sig.Results().At(1).Type()) || !isProtoMsg(sig.Results().At(0).Type()) {
			continue
		}
		name := ""
		for n := range transferLayout {
			if plain(n) == plain(protoMsgName(sig.Results().At(0).Type())) {
				name = n
			}
		}
		if name == "" {
			continue
		}
		k := &frames{lens: lens, fields: true}
		args := make([]fval, len(f.Params))
		for i, p := range f.Params {
			args[i] = funknown
			if isByteSlice(p.Type()) {
				args[i] = fval{kind: 's', pos: pconst(0), p: patom("len")}
			}
		}
		ends := k.call(f, args, nil, newFstate())
		if k.fail != "" {
			undecided = append(undecided, fname(f)+": "+k.fail)
			if os.Getenv("P29TRACE") != "" {
				fmt.Println(fname(f), k.fail)
			}
			continue
		}
		decoders++
		// what each field is set to on the paths that succeed
		sets := map[string]map[string]fset{}
		filled := map[string]bool{}
		facts := map[string]map[string]fcond{}
		for _, e := range ends {
			if e.res[1].kind == 'e' && e.res[1].flag == 'N' {
				continue
			}
			for key, s := range e.st.sets {
				n := s.msg
				if s.field != "" {
					n += "." + s.field
					filled[s.msg] = true
				}
				if sets[n] == nil {
					sets[n] = map[string]fset{}
				}
				sets[n][key] = s
				// what is known of single rounds is left out
				fs := map[string]fcond{}
				for n, fc := range e.st.facts {
					if !fc.p.mentions("loop") {
						fs[n] = fc
					}
				}
				facts[key] = fs
				for _, fc := range fs {
					co := fc.p["len"]
					if fc.op != '=' || fc.neg || co != 1 && co != -1 {
						continue
					}
					// the length is known
					is := patom("len").add(fc.p, -co)
					if s.pos != nil && s.pos.mentions("len") && s.field != "RawData" {
						s.pos, s.n = s.pos.subst("len", is), s.n.subst("len", is)
						sets[n][key] = s
					}
				}
				if os.Getenv("P29TRACE") != "" {
					fmt.Println(n, key)
				}
			}
		}
		check := func(w fieldPlace, want, n, step poly) {
			obl++
			got := sets[w.field]
			if len(got) == 0 {
				if filled[strings.Split(w.field, ".")[0]] && !k.built {
					r.add(Finding{Rule: "unset", Fn: fname(f), What: w.field, Pos: relPos(c.P.SSA.Fset.Position(f.Pos())), Msg: "the field is never set"})
				} else {
					undecided = append(undecided, w.field+": not seen set")
				}
				return
			}
			var keys []string
			for key := range got {
				keys = append(keys, key)
			}
			sort.Strings(keys)
			good := true
			for _, key := range keys {
				s := got[key]
				pos := token.NoPos
				if s.in != nil {
					pos = s.in.Pos()
				}
				if w.bits == isList {
					if s.n == nil {
						good = false
						undecided = append(undecided, w.field+": not known how long it is")
					} else if d := s.n.add(n, -1); len(d) != 0 {
						good = false
						at, ok := differs(d, facts[key], nil)
						if n, is := d.constant(); is {
							at, ok = fmt.Sprintf("there are any: by %d", n), true
						}
						if ok {
							r.add(Finding{Rule: "length", Fn: fname(f), What: w.field, Pos: relPos(c.P.SSA.Fset.Position(pos)), Msg: "the list is not as long as the count of its records says when " + at})
						} else {
							undecided = append(undecided, w.field+": its length is not shown equal")
						}
					}
					continue
				}
				msg, ok := w.compare(s, want, n, step, facts[key])
				if !ok {
					good = false
					undecided = append(undecided, w.field+": "+msg)
				} else if msg != "" {
					good = false
					r.add(Finding{Rule: "place", Fn: fname(f), What: w.field, Pos: relPos(c.P.SSA.Fset.Position(pos)), Msg: msg})
				}
			}
			if good {
				decided++
			}
		}
		at := pconst(0)
		for i, p := range transferLayout[name] {
			first, step := at, pconst(0)
			if p.w > 0 {
				first = at.add(pconst(p.w), 1)
				step = pconst(p.n)
			}
			if l := fieldLists[name][i]; l != "" {
				check(fieldPlace{field: l, bits: isList}, nil, be(at, int(p.w)), nil)
			}
			at = lengthOf(transferLayout[name][:i+1])
			for _, w := range fieldLayout[name][i] {
				check(w, first.add(pconst(w.at), 1), pconst(w.n), step)
			}
		}
		msg := protoMsgName(sig.Results().At(0).Type())
		all := patom("len")
		check(fieldPlace{field: msg + ".RawData", n: -1}, pconst(0), all, pconst(0))
		if strings.HasSuffix(name, "_GEN1") && fieldLayout[name] == nil {
			check(fieldPlace{field: msg + ".Signature", n: -1}, all.add(pconst(128), -1), pconst(128), pconst(0))
		}
	}
	sort.Strings(undecided)
	r.Cov["obligations"] = obl
	r.Cov["discharged"] = decided
	r.Cov["undecided_fields"] = undecided
	r.Cov["undecided"] = len(undecided)
	r.Cov["decoders"] = decoders
	r.floor("fields", decided, 15)
}

// compare: false if it cannot be told; a message if the source is not the place.
func (w fieldPlace) compare(s fset, want, n, step poly, facts map[string]fcond) (string, bool) {
	if s.num != nil {
		k, ok := n.constant()
		if !ok || k > 4 || w.bits != 0 {
			return "it is not known what the number is", false
		}
		d := s.num.add(be(want, int(k)), -1)
		if at, ok := differs(d, facts, nil); ok {
			return "the number is not the one at its place: " + at, true
		}
		return "the number is not shown to be that at its place", false
	}
	if s.what != "" {
		return "it is not known where it comes from", false
	}
	got := s.step
	if got == nil {
		got = pconst(0)
	}
	say := func(what string, a, b poly) (string, bool) {
		d := a.add(b, -1)
		if _, ok := d.constant(); ok {
			return fmt.Sprintf("%s is %s, not %s", what, spell(a), spell(b)), true
		}
		if at, ok := differs(a.add(b, -1), facts, nil); ok {
			return fmt.Sprintf("%s is %s, not %s (%s)", what, spell(a), spell(b), at), true
		}
		return "not shown equal", false
	}
	if s.pos.key() != want.key() {
		return say("the position it is read from", s.pos, want)
	}
	if got.key() != step.key() {
		return say("the distance to the next record", got, step)
	}
	if s.n.key() != n.key() {
		return say("the number of bytes", s.n, n)
	}
	for x := int64(0); x < 256; x++ {
		y := x
		if s.fn != nil {
			v, ok := evalByte(s.fn, x)
			if !ok {
				return "what is made of the byte is not known", false
			}
			y = v
		} else if w.n != 1 {
			break
		}
		e := x
		switch w.bits {
		case 1:
			e = x & 15
		case 2:
			e = x >> 4
		}
		if y != e {
			return fmt.Sprintf("of the byte %d it takes %d, not %d", x, y, e), true
		}
	}
	return "", true
}

func evalByte(p poly, x int64) (int64, bool) {
	s := int64(0)
	for k, c := range p {
		t := c
		if k != "" {
			for _, a := range strings.Split(k, "*") {
				v := x
				if d, ok := derivations[a]; ok {
					if v, ok = d.value(func(q poly) (int64, bool) { return evalByte(q, x) }); !ok {
						return 0, false
					}
				}
				t *= v
			}
		}
		s += t
	}
	return s, true
}

// spell out a position.
func spell(p poly) string {
	if n, ok := p.constant(); ok {
		return fmt.Sprint(n)
	}
	n := p[""]
	q := p.add(pconst(n), -1)
	return fmt.Sprintf("%d + counts(%d)", n, len(q))
}
