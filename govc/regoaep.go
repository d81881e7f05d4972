package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Proof roots for the message registry and for RSA-OAEP chunking.

func regJobs(w *World) []job {
	_, order, err := ParseLayouts(layoutsText)
	if err != nil {
		panic(err)
	}
	ids := map[int]string{}
	for _, l := range order {
		if l.MsgID >= 0 {
			ids[l.MsgID] = l.Name
		}
	}
	g := w.registryVar()
	js := []job{{"reg:entities", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) {
			b := ex.b
			if g == nil {
				ex.failNow("exists", "no registry variable (map from uint16 to func() Entity) in package protocol")
				return
			}
			m, ok := ex.load(ex.global(g).(PtrV)).(MapRef)
			if !ok || m.O == nil {
				ex.failNow("exists", "the registry is not initialised")
				return
			}
			mv := ex.mapOf(m)
			seen := map[int]bool{}
			for _, en := range mv.Ents {
				k, ok := en.K.(*Term)
				if !ok || !k.isConst() {
					ex.failNow("constant ids", "registry key is not constant")
					continue
				}
				id := int(k.Val)
				if seen[id] {
					ex.failNow(fmt.Sprintf("id 0x%04x registered once", id), "duplicate")
				}
				seen[id] = true
				v := ex.callValue(en.V, nil, "root")
				v2 := ex.callValue(en.V, nil, "root")
				iv, ok1 := v.(IfaceV)
				iv2, ok2 := v2.(IfaceV)
				if !ok1 || !ok2 || iv.T == nil || iv2.T == nil {
					ex.failNow(fmt.Sprintf("id 0x%04x creates its type", id), "unknown result")
					continue
				}
				p1, _ := iv.V.(PtrV)
				p2, _ := iv2.V.(PtrV)
				if p1.O == nil || p1.O == p2.O {
					ex.failNow(fmt.Sprintf("id 0x%04x creates a fresh value", id), "the same value twice")
				} else {
					ex.ok(fmt.Sprintf("id 0x%04x creates a fresh value", id))
				}
				fn := ex.e.W.Prog.LookupMethod(iv.T, w.Pkgs["protocol"].Pkg, "MsgID")
				got := ex.callFn(fn, []Value{iv.V}, nil, "root")
				ex.assertEq(fmt.Sprintf("id 0x%04x creates the type with that id", id), got, b.C(16, uint64(id)))
				if name, ok := ids[id]; ok {
					ex.assert(fmt.Sprintf("id 0x%04x creates %s", id, name), b.Bool(pointeeName(iv.T) == name), func() string { return iv.T.String() })
				}
			}
			for id, name := range ids {
				if !seen[id] {
					ex.failNow(fmt.Sprintf("id 0x%04x registered", id), name+" is not registered")
				} else {
					ex.ok(fmt.Sprintf("id 0x%04x registered", id))
				}
			}
			ex.ok("no-panic")
		})
	}}}
	if fn := w.Pkgs["protocol"].Func("Register"); fn != nil && g != nil {
		js = append(js, job{"reg:Register", func(w *World, e *Engine) {
			e.Explore(func(ex *Ex) {
				b := ex.b
				typ, other := b.Var("typ", BV(16)), b.Var("other", BV(16))
				ex.assume(b.Ne(typ, other))
				old := FuncV{Nil: b.F, Id: b.C(32, 1), Mod: func(ex *Ex, a []Value) Value { return ex.nilIface() }}
				had := b.Var("had", BoolS)
				mo := ex.newObj("registry", MapV{Base: &SymMap{Has: func(ex *Ex, k Value) *Term { return had }, Val: func(ex *Ex, k Value) Value { return old }}}, nil)
				ref := MapRef{O: mo, Nil: b.F}
				ex.globals[g] = ex.newObj("registryvar", ref, nil)
				fresh := IfaceV{Nil: b.F, Id: b.C(32, 77)}
				nw := FuncV{Nil: b.F, Mod: func(ex *Ex, a []Value) Value { return fresh }}
				ex.callFn(fn, []Value{typ, nw}, nil, "root")
				ex.ok("no-panic")
				cur, ok := ex.load(ex.ptrTo(ex.globals[g])).(MapRef)
				if !ok || cur.O == nil {
					ex.failNow("registered", "registry lost")
					return
				}
				v, ok := ex.mapFind(cur, typ)
				if !ok {
					ex.failNow("registered", "the id is not in the registry afterwards")
					return
				}
				r, _ := ex.callValue(v, nil, "root").(IfaceV)
				ex.assert("registered creator is used", b.And(b.Not(r.Nil), b.Eq(r.Id, fresh.Id)), nil)
				v2, ok := ex.mapFind(cur, other)
				if ex.choose(had) {
					f2, isF := v2.(FuncV)
					ex.assert("other ids keep their type", b.Bool(ok && isF && f2.Id != nil && f2.Id == old.Id), nil)
				} else {
					ex.assert("other ids keep their type", b.Bool(!ok), nil)
				}
			})
		}})
	}
	return js
}

// chunkList: the chunks of at most `limit` bytes of a sequence of n bytes.
func chunkList(ex *Ex, key string, n, limit *Term, elem func(ex *Ex, from, ln *Term, j *Term) Value) *SpecList {
	b := ex.b
	N := b.Var("N:"+key, BV(64))
	ex.assume(b.And(b.SLe(b.I(0), N), b.SLe(N, n)))
	l := &SpecList{Key: key, N: N}
	l.P = func(ex *Ex, k *Term) *Term {
		t := b.App("P:"+key, BV(64), k)
		if kk := fmt.Sprintf("P%d", t.ID); !ex.seen[kk] {
			ex.seen[kk] = true
			ex.assume(b.And(b.SLe(b.I(0), t), b.SLe(t, n)))
			ex.assume(b.Eq(b.Eq(t, n), b.Eq(k, N)))
			ex.assume(b.Eq(b.App("P:"+key, BV(64), b.I(0)), b.I(0)))
		}
		return t
	}
	size := func(ex *Ex, j *Term) *Term {
		rem := b.Sub(n, l.P(ex, j))
		return b.Ite(b.SLe(limit, rem), limit, rem)
	}
	l.Elem = func(ex *Ex, j *Term) Value {
		sz := size(ex, j)
		ex.assume(b.Eq(l.P(ex, b.Add(j, b.I(1))), b.Add(l.P(ex, j), sz)))
		return elem(ex, l.P(ex, j), sz, j)
	}
	l.Unfold = func(ex *Ex, k *Term) int {
		l.P(ex, k)
		if !ex.choose(b.SLt(k, N)) {
			ex.assume(b.Eq(k, N))
			return 0
		}
		l.Elem(ex, k)
		return 1
	}
	return l
}

func oaepJobs(w *World) []job {
	pk := w.Pkgs["protocol"]
	bytes := types.Typ[types.Uint8]
	bsl := types.NewSlice(bytes)
	var js []job
	split := w.helper("bytesSplit")
	if split != nil && (split.Signature.Params().Len() != 2 || split.Signature.Results().Len() != 1) {
		split = nil
	}
	mkChunks := func(ex *Ex, key string, data SliceV, limit *Term) *SpecList {
		b := ex.b
		return chunkList(ex, key, data.Len, limit, func(ex *Ex, from, ln, j *Term) Value {
			return SliceV{Arr: data.Arr, Off: b.Add(data.Off, from), Len: ln, Cap: b.Sub(data.Cap, from), Nil: b.F}
		})
	}
	if split != nil {
		js = append(js, job{"oaep:split", func(w *World, e *Engine) {
			e.Explore(func(ex *Ex) {
				b := ex.b
				D := b.Var("D", US("Str"))
				limit := b.Var("limit", BV(64))
				ex.addInput("len(D)", ex.slen(D))
				ex.addInput("limit", limit)
				ex.assume(b.And(b.SLe(b.I(1), limit), b.SLe(limit, b.I(1<<32))))
				data := ex.freshSlice(ex.strSeq(D), "data")
				l := mkChunks(ex, "chunk", data, limit)
				ex.lists = append(ex.lists, l)
				r := ex.callFn(split, []Value{data, limit}, nil, "root")
				ex.ok("no-panic")
				want := ex.sliceOf(ex.win(listBase{l}, b.I(0), l.N), "want", bsl)
				ex.assertEq("chunks of the limit, remainder last, every byte once and in order", r, want)
				ex.assertEq("input unchanged", StrV{ex.content(data)}, StrV{ex.strSeq(D)})
			})
		}})
	}
	hookSplit := func(ex *Ex, whole SliceV, lim *Term, sl **SpecList) {
		if split == nil {
			return
		}
		ex.hooks[split.String()] = func(ex *Ex, a []Value) (Value, bool) {
			limit := asTerm(ex, a[1])
			if !ex.assert("chunk size is positive", ex.b.SLt(ex.b.I(0), limit), nil) {
				ex.cut()
			}
			d := asSlice(ex, a[0])
			l := *sl
			if l == nil || !ex.assert("the whole data is split into chunks of the limit", ex.b.And(ex.b.Bool(d.Arr.O == whole.Arr.O), ex.b.Eq(d.Off, whole.Off), ex.b.Eq(d.Len, whole.Len), ex.b.Eq(limit, lim)), nil) {
				ex.cut()
			}
			return ex.sliceOf(ex.win(listBase{l}, ex.b.I(0), l.N), "chunks", bsl), true
		}
	}
	hash := func(ex *Ex, hs *Term) Value {
		ex.hooks["opq:hash.Size"] = func(ex *Ex, a []Value) (Value, bool) { return hs, true }
		ex.hooks["opq:hash.Reset"] = func(ex *Ex, a []Value) (Value, bool) { return nil, true }
		return IfaceV{Nil: ex.b.F, Id: ex.b.C(32, 9), V: OpqV{Kind: "hash"}}
	}
	keyObj := func(ex *Ex, fn *ssa.Function, name string) PtrV {
		t := fn.Params[1].Type().(*types.Pointer).Elem()
		return ex.ptrTo(ex.newObj(name, ex.zero(t), t))
	}
	setup := func(ex *Ex) (K, hs, D *Term, data SliceV) {
		b := ex.b
		K, hs, D = b.Var("keysize", BV(64)), b.Var("hashsize", BV(64)), b.Var("D", US("Str"))
		ex.addInput("keysize", K)
		ex.addInput("hashsize", hs)
		ex.addInput("len(D)", ex.slen(D))
		ex.assume(b.And(b.SLe(b.I(1), K), b.SLe(K, b.I(1<<20))))
		ex.assume(b.And(b.SLe(b.I(1), hs), b.SLe(hs, b.I(1<<10))))
		ex.hooks["(*crypto/rsa.PublicKey).Size"] = func(ex *Ex, a []Value) (Value, bool) { return K, true }
		return K, hs, D, ex.freshSlice(ex.strSeq(D), "data")
	}
	enc, dec := pk.Func("EncryptOAEP"), pk.Func("DecryptOAEP")
	js = append(js, job{"oaep:encrypt", func(w *World, e *Engine) {
		if !w.need(e, enc, "EncryptOAEP") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			K, hs, _, data := setup(ex)
			var l *SpecList
			limit := b.Sub(K, b.Add(b.Mul(b.I(2), hs), b.I(2)))
			hookSplit(ex, data, limit, &l)
			pub := keyObj(ex, enc, "pub")
			label := ex.freshSlice(ex.strSeq(b.Var("label", US("Str"))), "label")
			fits := ex.choose(b.SLt(b.I(0), limit))
			bad := b.Var("kbad", BV(64)) // the chunk whose encryption fails, if any
			cipher := func(ex *Ex, s *Seq) *Term {
				t := b.App("rsa", US("Str"), ex.seqTerm(s))
				ex.assume(b.Eq(ex.slen(t), K))
				return t
			}
			failed := false
			if fits {
				l = mkChunks(ex, "chunk", data, limit)
				l.Flat = &cipherFlat{l, cipher, K}
				ex.lists = append(ex.lists, l)
			}
			ex.hooks["crypto/rsa.EncryptOAEP"] = func(ex *Ex, a []Value) (Value, bool) {
				ex.assert("encrypts with the given key", b.Bool(asPtr(ex, a[2]).O == pub.O), nil)
				s := ex.content(asSlice(ex, a[3]))
				ex.assert("every chunk fits the key", b.SLe(ex.seqLen(s), limit), nil)
				ex.assertEq("label passed on", StrV{ex.content(asSlice(ex, a[4]))}, StrV{ex.content(label)})
				if failed = !ex.choose(b.App("rsaok", BoolS, bad)); failed {
					return TupleV{ex.nilSlice(), ex.anyErr("rsa")}, true
				}
				return TupleV{ex.freshSlice(ex.strSeq(cipher(ex, s)), "cipher"), ex.nilErr()}, true
			}
			r := ex.callFn(enc, []Value{hash(ex, hs), pub, data, label}, nil, "root").(TupleV)
			ex.ok("no-panic")
			if !fits {
				// a key too small: an error for any data (an empty body has nothing to carry)
				ex.assert("a key too small to carry data is an error", b.Or(isErr(ex, r[1]), b.Eq(data.Len, b.I(0))), nil)
				return
			}
			if failed {
				ex.assert("a failing chunk is an error", isErr(ex, r[1]), nil)
				return
			}
			if ex.assert("encrypts", b.Not(isErr(ex, r[1])), nil) {
				ex.assertEq("one ciphertext per chunk, in order", StrV{ex.content(asSlice(ex, r[0]))}, StrV{l.all(ex)})
			}
		})
	}})
	js = append(js, job{"oaep:decrypt", func(w *World, e *Engine) {
		if !w.need(e, dec, "DecryptOAEP") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			K, hs, _, data := setup(ex)
			var l *SpecList
			hookSplit(ex, data, K, &l)
			priv := keyObj(ex, dec, "priv")
			label := ex.freshSlice(ex.strSeq(b.Var("label", US("Str"))), "label")
			l = mkChunks(ex, "chunk", data, K)
			plain := func(ex *Ex, s *Seq) *Term { return b.App("unrsa", US("Str"), ex.seqTerm(s)) }
			l.Flat = &cipherFlat{l, plain, nil}
			ex.lists = append(ex.lists, l)
			failed := false
			ex.hooks["crypto/rsa.DecryptOAEP"] = func(ex *Ex, a []Value) (Value, bool) {
				ex.assert("decrypts with the given key", b.Bool(asPtr(ex, a[2]).O == priv.O), nil)
				s := ex.content(asSlice(ex, a[3]))
				ex.assertEq("label passed on", StrV{ex.content(asSlice(ex, a[4]))}, StrV{ex.content(label)})
				if failed = !ex.choose(b.App("rsaok", BoolS, ex.seqTerm(s))); failed {
					return TupleV{ex.nilSlice(), ex.anyErr("rsa")}, true
				}
				return TupleV{ex.freshSlice(ex.strSeq(plain(ex, s)), "plain"), ex.nilErr()}, true
			}
			r := ex.callFn(dec, []Value{hash(ex, hs), priv, data, label}, nil, "root").(TupleV)
			ex.ok("no-panic")
			if failed {
				ex.assert("a chunk that does not decrypt is an error", isErr(ex, r[1]), nil)
				return
			}
			if ex.assert("decrypts", b.Not(isErr(ex, r[1])), nil) {
				ex.assertEq("the plaintexts of the key-sized chunks, in order", StrV{ex.content(asSlice(ex, r[0]))}, StrV{l.all(ex)})
			}
		})
	}})
	js = append(js, job{"oaep:lemma", func(w *World, e *Engine) {
		// chunk j of the ciphertexts c_0 c_1 ... (each K bytes) is c_j: by
		// induction on j the offset of chunk j is the offset of c_j and at least
		// K bytes are left, so the chunk is [offset, offset+K)
		e.Explore(func(ex *Ex) {
			b := ex.b
			K, n, off, j, N := b.Var("K", BV(64)), b.Var("total", BV(64)), b.Var("off", BV(64)), b.Var("j", BV(64)), b.Var("N", BV(64))
			for _, t := range []*Term{K, n, off, j, N} {
				ex.assume(b.And(b.SLe(b.I(0), t), b.SLe(t, b.I(1<<40))))
			}
			after := b.Var("after", BV(64)) // bytes of the ciphertexts behind c_j
			ex.assume(b.And(b.SLe(b.I(0), after), b.SLe(after, b.I(1<<40))))
			ex.assume(b.SLt(b.I(0), K))
			ex.assume(b.Eq(n, b.Add(off, b.Add(K, after))))
			rem := b.Sub(n, off)
			sz := b.Ite(b.SLe(K, rem), K, rem)
			ex.assertEq("the chunk at a ciphertext's offset is that ciphertext", sz, K)
			ex.assertEq("the next chunk starts at the next ciphertext", b.Add(off, sz), b.Sub(n, after))
		})
		// chunks of the plaintext concatenate to the plaintext: each starts where
		// the one before ended, the first at 0, the last ends at the length
		e.Explore(func(ex *Ex) {
			b := ex.b
			D := b.Var("D", US("Str"))
			limit := b.Var("limit", BV(64))
			ex.assume(b.And(b.SLe(b.I(1), limit), b.SLe(limit, b.I(1<<32))))
			n := ex.slen(D)
			k := b.Var("k", BV(64))
			S := ex.strSeq(D)
			l := chunkList(ex, "chunk", n, limit, func(ex *Ex, from, ln, j *Term) Value { return StrV{ex.sub(S, from, ln)} })
			ex.assume(b.And(b.SLe(b.I(0), k), b.SLe(k, l.N)))
			switch l.Unfold(ex, k) {
			case 0:
				ex.assertEq("the chunks end at the end", l.P(ex, k), n)
			case 1:
				pre := ex.sub(S, b.I(0), l.P(ex, k))
				ex.assertEq("prefix and chunk make the next prefix", StrV{ex.cat(pre, l.Elem(ex, k).(StrV).S)}, StrV{ex.sub(S, b.I(0), l.P(ex, b.Add(k, b.I(1))))})
				ex.assert("no chunk is empty", b.SLt(l.P(ex, k), l.P(ex, b.Add(k, b.I(1)))), nil)
			}
		})
	}})
	return js
}

type cipherFlat struct {
	l  *SpecList
	f  func(ex *Ex, s *Seq) *Term
	sz *Term
}

func (f *cipherFlat) Key() string { return "cipher" + f.l.Key }
func (f *cipherFlat) Expand(ex *Ex, j *Term) *Seq {
	return ex.strSeq(f.f(ex, ex.content(f.l.Elem(ex, j).(SliceV))))
}
func (f *cipherFlat) Len(ex *Ex, from, to *Term) *Term { return flatLen(ex, f.Key(), from, to) }

func pointeeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}
