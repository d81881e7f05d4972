package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Layout nodes shared by the verifier and the replay harness.

type Node struct {
	Op    string
	Field string
	N     int
	Elem  string
	Flag  string
	Bit   int
	Sub   []*Node
}
type Layout struct {
	Name  string
	MsgID int // -1 for element types
	Nodes []*Node
}

func ParseLayouts(text string) (map[string]*Layout, []*Layout, error) {
	byName := map[string]*Layout{}
	var order []*Layout
	var cur *Layout
	var stack []*[]*Node
	num := func(s string) int {
		n, err := strconv.ParseInt(s, 0, 32)
		if err != nil {
			panic(err)
		}
		return int(n)
	}
	for ln, line := range strings.Split(text, "\n") {
		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "type", "msg":
			cur = &Layout{Name: f[1], MsgID: -1}
			if f[0] == "msg" {
				cur.MsgID = num(f[2])
			}
			stack = []*[]*Node{&cur.Nodes}
			continue
		case "end":
			stack = stack[:len(stack)-1]
			if len(stack) == 0 {
				byName[cur.Name] = cur
				order = append(order, cur)
			}
			continue
		}
		n := &Node{Op: f[0]}
		switch f[0] {
		case "str", "gb", "raw", "bcd":
			n.N, n.Field = num(f[1]), f[2]
		case "geo":
			n.Field, n.Flag, n.Bit = f[1], f[2], num(f[3])
		case "if", "opt":
			n.Flag, n.Bit = f[1], num(f[2])
		case "list8", "list16", "listrest", "optlist8", "items", "embed", "embed28":
			n.Field, n.Elem = f[1], f[2]
		case "u8", "u16", "u32", "str8", "gb8", "gb16", "gbrest", "gbrest1", "rest", "bytes8", "time", "date4", "dur5", "count16", "extras", "packet", "gzip32", "rsakey":
			n.Field = f[1]
		default:
			return nil, nil, fmt.Errorf("layouts.txt:%d: unknown node %s", ln+1, f[0])
		}
		top := stack[len(stack)-1]
		*top = append(*top, n)
		if f[0] == "if" || f[0] == "opt" {
			stack = append(stack, &n.Sub)
		}
	}
	return byName, order, nil
}
