HIDE = "edd,edp,arch_steps,arch_step,push_steps,ed_base,unf,gauge_name,els,lseq,rseq,cin,okt"
def edit(fn, batch, kpos, fb, fa, coord, extra, ent=''):
    k = '"@X@ as %s"' % fn
    S = "c0 as int, n0 as int, dg as int, ng as int"
    return f'''%hide {k} {HIDE}
%ghost {k}
    mut z0 = vstd::pervasive::arbitrary::<Raz<E, @M@>>();
    mut zb = vstd::pervasive::arbitrary::<Raz<E, @M@>>();
    mut dv = {batch};
    mut c0 = self.counter;
    mut n0 = self.names;
    mut dg = self.datagauge;
    mut ng = self.namegauge;
    mut gg = self.namegauge * self.datagauge;
    mut l0 = 0u32;
    mut nm0 = None::<Name>;
{extra}%entry {k}
    assert(gg >= 1) by (nonlinear_arith) requires gg == ng * dg, ng >= 1, dg >= 1;
    lemma_gauge_room(c0 as int, batch_size as int, dg as int);
    lemma_gauge_room(c0 as int, batch_size as int, gg as int);
    assert(dv.len() == batch_size) by {{ lemma_drawn::<G, E>(@@C0@@, batch_size as nat); }}
    lemma_focus_len(self.raztree->0); {ent}
%before {k} focus 0
{fb}
%after {k} focus 0
{fa}
%loop {k} 0
    invariant __end0 == new_levels + 1, 0 <= __i0 <= __end0, lev_vec@.len() == __i0, levs(lev_vec@),
    ensures __i0 == __end0,
    decreases __end0 - __i0,
%loop {k} 1
    invariant __end1 == new_names + 1, 0 <= __i1 <= __end1, new_names <= batch_size, name_vec@.len() == __i1, self_.names == n0 + __i1, self_.raztree is None, self_.counter == c0, self_.datagauge == dg, self_.namegauge == ng, self_.coord == {coord},
        n0 + batch_size + 1 <= usize::MAX, consec(name_vec@, n0 as int),
    ensures __i1 == __end1,
    decreases __end1 - __i1,
%beforeloop {k} 2
    lemma_ed_new(raz, dv, {S});
    z0 = raz;
%loop {k} 2
    invariant __v2@ == dv, dv.len() == batch_size, 0 <= __i2 <= batch_size, self_.counter == c0 + __i2, c0 + batch_size <= usize::MAX,
        self_.datagauge == dg, self_.namegauge == ng, gg == ng * dg, 1 <= gg <= usize::MAX, dg >= 1, ng >= 1, edd(z0, raz, dv, __i2 as int, {S}),
        (c0 + batch_size) / dg as int - c0 as int / dg as int <= new_levels + 1, (c0 + batch_size) / gg as int - c0 as int / gg as int <= new_names + 1, new_names <= batch_size, n0 + batch_size + 1 <= usize::MAX,
        lev_iter@.len() == new_levels + 1 - (self_.counter as int / dg as int - c0 as int / dg as int), name_iter@.len() == new_names + 1 - (self_.counter as int / gg as int - c0 as int / gg as int),
        levs(lev_iter@), consec(name_iter@, n0 + (self_.counter as int / gg as int - c0 as int / gg as int)),
    ensures __i2 == batch_size,
    decreases batch_size - __i2,
%before {k} push_left 0
    lemma_gauge_step(self_.counter as int, c0 + batch_size, dg as int, ng as int);
    lemma_ed_facts(z0, raz, dv, __i2 - 1, {S}); zb = raz;
%after {k} push_left 0
    assert(raz.rsame(zb)); assert(raz.left() == zb.left().push(dv[__i2 - 1]));
    lemma_ed_push(z0, zb, raz, dv, __i2 - 1, {S}); zb = raz;
%before {k} archive_left 0
    l0 = lev_iter@[0]; nm0 = name_iter@[0];
%after {k} archive_left 0
    assert(nm0 == gauge_name(c0 as int, c0 + __i2, {S}.1)) by {{ reveal(gauge_name); }}
    lemma_ed_arch(z0, zb, raz, dv, __i2 as int, {S}, l0, nm0);
%before {k} archive_left 1
    l0 = lev_iter@[0];
%after {k} archive_left 1
    assert(None::<Name> == gauge_name(c0 as int, c0 + __i2, {S}.1)) by {{ reveal(gauge_name); }}
    lemma_ed_arch(z0, zb, raz, dv, __i2 as int, {S}, l0, None);
%loopend {k} 2
    if self_.counter as int % dg as int != 0 {{ lemma_ed_none(z0, raz, dv, __i2 as int, {S}); }}
%before {k} unfocus 0
    lemma_ed_all(z0, raz, dv, {S});
    zb = raz;
'''.replace("{S}.1".format(S=S), "n0 as int, dg as int, ng as int").replace("KPOS", kpos)
IR = {}
BODY = edit("EditAppend::append", "drawn_seq::<G, E>(self.coord, batch_size as nat)", "self.elems().len() as int", "@@FB@@", "@@FA@@", "self.coord", "").replace("@@C0@@", "self.coord")
BODY += '''%after "@X@ as EditAppend::append" unfocus 0
    assert(unfs(zb, choose|nt: Name| unfs(zb, nt, cin(__r.tree)), cin(__r.tree)));
    assert(at_cut(self.raztree->0, z0, self.elems().len() as int));
    assert(edited(self, z0, dv, zb));
    assert(__r.elems() =~= self.elems() + dv);
'''
BODY += edit("EditInsert::insert", "drawn_seq::<G, E>(@AFTER@, batch_size as nat)", "k", "@@FBI@@", "@@FAI@@", "@AFTER@", "    mut k = vstd::pervasive::arbitrary::<int>();\n", "@@ENT@@").replace("@@C0@@", "@AFTER@")
BODY += '''%after "@X@ as EditInsert::insert" unfocus 0
    assert(unfs(zb, choose|nt: Name| unfs(zb, nt, cin(__r.tree)), cin(__r.tree)));
    assert(at_cut(self.raztree->0, z0, k));
    assert(edited(self, z0, dv, zb));
    assert(__r.elems() =~= self.elems().take(k) + dv + self.elems().skip(k));
'''
K='"@X@ as CreateInc::inc_init"'
COMMON="data_iter@ == dv.skip(i), level_iter@.len() == levels - a, levs(level_iter@), a >= 0,"
S="0, 0, dg, ng"
BODY += f'''%hide {K} {HIDE}
%ghost {K}
    mut i = 0int;
    mut a = 0int;
    mut dv = drawn_seq::<G, E>(*coord, size as nat);
    mut nv = Seq::<Option<Name>>::empty();
    mut dg = datagauge as int;
    mut ng = namegauge as int;
    mut l0 = 0u32;
    mut nm0 = None::<Name>;
    mut z0 = vstd::pervasive::arbitrary::<Raz<E, @M@>>();
    mut zb = vstd::pervasive::arbitrary::<Raz<E, @M@>>();
%entry {K}
    lemma_init_counts(size as int, dg, ng);
    assert(dv.len() == size) by {{ lemma_drawn::<G, E>(*coord, size as nat); }}
%loop {K} 0
    invariant __end0 == levels, 0 <= __i0 <= __end0, lev_vec@.len() == __i0, levs(lev_vec@),
    ensures __i0 == __end0,
    decreases __end0 - __i0,
%loop {K} 1
    invariant __end1 == names, 0 <= __i1 <= __end1, names < usize::MAX, name_vec@.len() == __i1 * ng, marked(name_vec@, ng), eval.names == __i1, eval.counter == 0, eval.raztree is None, eval.coord == *coord, eval.datagauge == dg, eval.namegauge == ng,
    ensures __i1 == __end1,
    decreases __end1 - __i1,
%loop {K} 2
    invariant __end2 == ng - 1, 0 <= __i2 <= __end2, name_vec@.len() == (__i1 - 1) * ng + __i2, marked(name_vec@, ng),
    ensures __i2 == __end2,
    decreases __end2 - __i2,
%before {K} push 1
    lemma_mark(__i1 - 1, __i2 - 1, ng);
%before {K} push 2
    lemma_mark(__i1 - 1, ng - 1, ng);
%afterloop {K} 1
    nv = name_vec@;
%beforeloop {K} 3
    z0 = raz;
    lemma_ed_new(raz, dv, {S});
    assert(dv.skip(0) =~= dv); assert(nv.skip(0) =~= nv);
%loop {K} 3
    invariant __end3 == names, 0 <= __i3 <= __end3, a == __i3 * ng, i == a * dg, {COMMON} name_iter@ == nv.skip(a), edd(z0, raz, dv, i, {S}),
    ensures __i3 == __end3,
    decreases __end3 - __i3,
%loop {K} 4
    invariant __end4 == ng, 0 <= __i4 <= __end4, a == (__i3 - 1) * ng + __i4, i == a * dg, {COMMON} name_iter@ == nv.skip(a), edd(z0, raz, dv, i, {S}),
    ensures __i4 == __end4,
    decreases __end4 - __i4,
%loop {K} 5
    invariant __end5 == dg, 0 <= __i5 <= __end5, i == a * dg + __i5, data_iter@ == dv.skip(i), __i5 < dg ==> edd(z0, raz, dv, i, {S}), __i5 == dg ==> edp(z0, raz, dv, i, {S}),
    ensures __i5 == __end5,
    decreases __end5 - __i5,
%before {K} push_left 0
    lemma_grid(__i3 - 1, names as int, __i4 - 1, ng); lemma_grid(a, names * ng, __i5 - 1, dg);
    lemma_ed_facts(z0, raz, dv, i, {S});
    zb = raz;
%after {K} push_left 0
    assert(raz.rsame(zb)); assert(raz.left() == zb.left().push(dv[i]));
    lemma_ed_push(z0, zb, raz, dv, i, {S}); assert(dv.skip(i).skip(1) =~= dv.skip(i + 1)); i = i + 1;
%loopend {K} 5
    if __i5 < dg {{ lemma_in_run(a, __i5 as int, dg, ng); lemma_ed_none(z0, raz, dv, i, {S}); }}
%before {K} archive_left 0
    lemma_mark(__i3 - 1, __i4 - 1, ng); lemma_grid(__i3 - 1, names as int, __i4 - 1, ng); lemma_grid(a, names * ng, 0, dg); lemma_run_end(a + 1, dg, ng);
    l0 = level_iter@[0]; nm0 = name_iter@[0]; zb = raz;
    assert(nm0 == nv[a]);
    lemma_ed_facts(z0, raz, dv, i, {S}); lemma_ed_names(dg, ng, i);
%after {K} archive_left 0
    lemma_ed_arch(z0, zb, raz, dv, i, {S}, l0, nm0); assert(nv.skip(a).skip(1) =~= nv.skip(a + 1)); a = a + 1;
%loopend {K} 3
    lemma_grid(__i3 - 1, names as int, 0, ng);
%loop {K} 6
    invariant __end6 == units, 0 <= __i6 <= __end6, a == names * ng + __i6, i == a * dg, {COMMON} edd(z0, raz, dv, i, {S}),
    ensures __i6 == __end6,
    decreases __end6 - __i6,
%loop {K} 7
    invariant __end7 == dg, 0 <= __i7 <= __end7, i == a * dg + __i7, data_iter@ == dv.skip(i), __i7 < dg ==> edd(z0, raz, dv, i, {S}), __i7 == dg ==> edp(z0, raz, dv, i, {S}),
    ensures __i7 == __end7,
    decreases __end7 - __i7,
%before {K} push_left 1
    lemma_grid(a, names * ng + units, __i7 - 1, dg);
    lemma_ed_facts(z0, raz, dv, i, {S});
    zb = raz;
%after {K} push_left 1
    assert(raz.rsame(zb)); assert(raz.left() == zb.left().push(dv[i]));
    lemma_ed_push(z0, zb, raz, dv, i, {S}); assert(dv.skip(i).skip(1) =~= dv.skip(i + 1)); i = i + 1;
%loopend {K} 7
    if __i7 < dg {{ lemma_in_run(a, __i7 as int, dg, ng); lemma_ed_none(z0, raz, dv, i, {S}); }}
%before {K} archive_left 1
    lemma_grid(a, names * ng + units, 0, dg); lemma_run_end(a + 1, dg, ng);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + 1, ng, names as int, __i6 as int);
    l0 = level_iter@[0]; zb = raz;
    lemma_ed_facts(z0, raz, dv, i, {S}); lemma_ed_names(dg, ng, i);
%after {K} archive_left 1
    lemma_ed_arch(z0, zb, raz, dv, i, {S}, l0, None); a = a + 1;
%loop {K} 8
    invariant __end8 == nounits, 0 <= __i8 <= __end8, i == a * dg + __i8, data_iter@ == dv.skip(i), edd(z0, raz, dv, i, {S}),
    ensures __i8 == __end8,
    decreases __end8 - __i8,
%before {K} push_left 2
    lemma_ed_facts(z0, raz, dv, i, {S});
    zb = raz;
%after {K} push_left 2
    assert(raz.rsame(zb)); assert(raz.left() == zb.left().push(dv[i]));
    lemma_ed_push(z0, zb, raz, dv, i, {S}); assert(dv.skip(i).skip(1) =~= dv.skip(i + 1)); i = i + 1;
%loopend {K} 8
    lemma_in_run(a, __i8 as int, dg, ng); lemma_ed_none(z0, raz, dv, i, {S});
%before {K} unfocus 0
    assert(i == size);
    lemma_ed_fresh(z0, raz, dv, 0, dg, ng);
    zb = raz;
%after {K} unfocus 0
    assert(unfs(zb, choose|nt: Name| unfs(zb, nt, cin(__r.tree)), cin(__r.tree)));
    assert(__r.elems() =~= dv);
%closure_after "@X@ as CompMax::comp_max" 0
    assert(is1(__c, id_fn::<E>()));
%closure_after "@X@ as CompMax::comp_max" 1
    assert(is2(__c, max_fn::<E>())); lemma_max_fn::<E>();
'''
IR = {"ENT": "", "FB": "    lemma_focus_len(self.raztree->0);", "FA": "    lemma_focus_count(self.raztree->0, len, __r); els_hint::<E>(); if __r is Some { z0 = __r->0; }",
      "FBI": "    lemma_focus_len(self.raztree->0);\n    if (self.raztree->0).tree is Some { lemma_count((self.raztree->0).tree->0, loc, 0, None, (self.raztree->0).meta); }",
      "FAI": "    k = loc as int; if __r is Some { z0 = __r->0; } lemma_focus_count(self.raztree->0, loc, __r);"}
NI = {"ENT": "lemma_keys(self.raztree->0);", "FB": "    lemma_focus_len(self.raztree->0);", "FA": "    if __r is Some { z0 = __r->0; } els_hint::<E>(); assert(focus_post(self.raztree->0, Position::Right, __r));\n    if (self.raztree->0).tree is Some { lemma_focus_at(self.raztree->0, Position::Right, __r); } else { lemma_focus_none(self.raztree->0, Position::Right, __r); }",
  "FBI": "    if (self.raztree->0).tree is Some { lemma_names((self.raztree->0).tree->0, 0, None, (self.raztree->0).meta, loc); lemma_named_found((self.raztree->0).tree->0, loc); }",
  "FAI": "    k = fpos((self.raztree->0).tree, Position::Center(loc))->0; if __r is Some { z0 = __r->0; }\n    assert(focus_post(self.raztree->0, Position::Center(loc), __r)); lemma_focus_at(self.raztree->0, Position::Center(loc), __r); assert(name_leads(self.raztree->0, loc, k));"}
EXTRA = {"EvalIRaz": IR, "EvalRazNameIndex": NI}
