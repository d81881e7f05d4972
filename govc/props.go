package main

import "strings"

func rootIn(prefixes ...string) func(string) bool {
	return func(r string) bool {
		for _, p := range prefixes {
			if strings.HasPrefix(r, p) {
				return true
			}
		}
		return false
	}
}
func labelIn(ls ...string) func(root, label string) bool {
	return func(_, label string) bool {
		for _, l := range ls {
			if strings.HasPrefix(label, l) {
				return true
			}
		}
		return false
	}
}

var propDefs = []propDef{
	{ID: "C01", Level: "proof", Roots: rootIn("enc:", "dec:", "prim:"),
		Counts: func(root, l string) bool {
			if strings.HasPrefix(root, "dec:") {
				return l == "accepts" || strings.HasPrefix(l, "field ") || l == "no-panic"
			}
			return true
		}, Harness: []string{"protocol"}},
	{ID: "C02", Level: "proof", Roots: rootIn("enc:"), Harness: []string{"protocol"}},
	{ID: "C03", Level: "proof", Roots: rootIn("dec:", "prim:", "msg:decode", "hdr:Decode", "oaep:split", "oaep:decrypt"),
		Counts: labelIn("no-panic", "count", "termination", "input-unchanged", "loop", "decreases"), Harness: []string{"protocol"}},
	{ID: "C04", Level: "proof", Roots: rootIn("dec:", "prim:"),
		Counts: func(root, l string) bool { return l != "accepts" && l != "count" }, Harness: []string{"protocol"}},
	{ID: "C05", Level: "proof", Roots: rootIn("msg:", "hdr:", "send:"), Counts: func(root, l string) bool {
		return !strings.HasPrefix(l, "rejected") && !strings.HasPrefix(l, "body") && !strings.HasPrefix(l, "encrypted")
	}, Harness: []string{"protocol"}},
	{ID: "C06", Level: "proof", Roots: rootIn("msg:decode", "msg:lemma", "hdr:Decode"), Counts: func(root, l string) bool {
		return l == "no-panic" || strings.HasPrefix(l, "rejected") || strings.Contains(l, "rejected") || strings.HasPrefix(l, "XOR")
	}, Harness: []string{"protocol"}},
	{ID: "C07", Level: "proof", Roots: rootIn("prop:", "hdr:", "msg:encode"), Counts: func(root, l string) bool {
		return root != "msg:encode" || strings.HasPrefix(l, "size") || l == "no-panic"
	}, Harness: []string{"protocol"}},
	{ID: "C08", Level: "proof", Roots: rootIn("recv:"), Harness: []string{"root"}},
	{ID: "C09", Level: "proof", Roots: rootIn("reg:", "msg:decode"), Counts: func(root, l string) bool {
		return root != "msg:decode" || strings.HasPrefix(l, "body") || strings.HasPrefix(l, "encrypted") || strings.HasPrefix(l, "header") || strings.HasPrefix(l, "rejected: body") || l == "accepts"
	}, Harness: []string{"protocol"}},
	{ID: "C10", Level: "proof", Roots: rootIn("extra:", "enc:T808_0x0200", "dec:T808_0x0200"), Harness: []string{"protocol"}},
	{ID: "C11", Level: "proof", Roots: geoRoots, Harness: []string{"protocol"}},
	{ID: "C12", Level: "proof", Roots: timeRoots, Harness: []string{"protocol"}},
	{ID: "C13", Level: "proof", Roots: rootIn("param:", "enc:T808_0x8103", "dec:T808_0x8103", "enc:T808_0x0104", "dec:T808_0x0104"), Harness: []string{"protocol"}},
	{ID: "C14", Level: "proof", Roots: rootIn("oaep:", "msg:encode", "msg:decode", "send:"), Counts: func(root, l string) bool {
		return !strings.HasPrefix(root, "msg:") && !strings.HasPrefix(root, "send:") || strings.HasPrefix(l, "encrypted") || strings.HasPrefix(l, "size: header") || root == "send:Send" && l == "no-panic"
	}, Harness: []string{"protocol"}},
	{ID: "C15", Level: "proof", Roots: rootIn("sess:Send", "sess:Reply", "sess:Request", "sess:message:other"), Counts: func(root, l string) bool {
		return !strings.HasPrefix(l, "reply") && !strings.HasPrefix(l, "request") && !strings.HasPrefix(l, "withdrawn") && !strings.HasPrefix(l, "response")
	}, Harness: []string{"root"}},
	{ID: "C16", Level: "proof", Roots: rootIn("sess:Request", "sess:message"), Counts: func(root, l string) bool {
		return !strings.HasPrefix(l, "serial") && !strings.Contains(l, "terminal number")
	}, Harness: []string{"root"}},
	{ID: "C17", Level: "proof", Roots: rootIn("timer:"), Harness: []string{"root"}},
	{ID: "C18", Level: "proof", Roots: rootIn("parts:"), Harness: []string{"root"}},
	{ID: "C19", Level: "proof", Roots: rootIn("serve:", "sess:Reply"), Counts: func(root, l string) bool {
		return !strings.HasPrefix(l, "table:")
	}, Harness: []string{"root"}},
	{ID: "C20", Level: "proof", Roots: rootIn("table:", "serve:session"), Counts: func(root, l string) bool {
		return !strings.HasPrefix(l, "message:")
	}, Harness: []string{"root"}},
}

func geoRoots(r string) bool {
	if rootIn("flag:")(r) {
		return true
	}
	return rootHas(r, "geo")
}
func timeRoots(r string) bool {
	if rootIn("bcd:", "prim:bcdToString")(r) {
		return true
	}
	return rootHas(r, "time", "date4", "dur5", "bcd")
}

// rootHas: the root is a codec root of a layout with such a node.
func rootHas(r string, ops ...string) bool {
	i := strings.IndexByte(r, ':')
	if i < 0 || r[:i] != "enc" && r[:i] != "dec" {
		return false
	}
	m, _, err := ParseLayouts(layoutsText)
	if err != nil || m[r[i+1:]] == nil {
		return false
	}
	return hasNode(m[r[i+1:]], &specDB{lay: m}, ops...)
}
