
// ---- C14 over all rows: what a satisfied table says (rows 1..=n enabled, row 0 and row n custom)
pub open spec fn unit() -> nat { 0x1_0000_0000_0000_0000 }
pub open spec fn in_range<F>(v: F, step: nat) -> bool { exists|j: nat| j <= step && v == #[trigger] fnat::<F>(j * unit()) }
/// one step of the permutation circuit stands behind a row
pub open spec fn permuted<F>(p: spec_fn(Seq<F>) -> Seq<F>, r: Row<F>) -> bool { p(seq![r.in0, r.in1, r.in2]) == seq![r.out0, r.out1, r.out2] }
#[verifier::opaque]
pub open spec fn satisfied<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat) -> bool {
    &&& n >= 1
    &&& forall|i: int| 1 <= i <= n ==> (#[trigger] t(i)).q == fone::<F>()
    &&& t(0).custom == fone::<F>() && t(n).custom == fone::<F>()
    &&& forall|i: int| 0 <= i <= n ==> linked(t(i - 1), #[trigger] t(i), fnat::<F>(step * unit()))
    &&& forall|i: int| 0 <= i <= n ==> in_range(fmul((#[trigger] t(i)).mark, t(i - 1).ctrl), step)
    &&& forall|i: int| 1 <= i <= n ==> permuted(p, #[trigger] t(i))
}
pub open spec fn marked<F>(r: Row<F>) -> bool { r.mark == fone::<F>() }
/// rows a..=b are one entry, another one follows
pub open spec fn entry<F>(t: spec_fn(int) -> Row<F>, n: int, a: int, b: int) -> bool {
    1 <= a <= b < n && marked(t(a)) && (forall|i: int| a < i <= b ==> !marked(#[trigger] t(i))) && marked(t(b + 1))
}
pub open spec fn words<F>(t: spec_fn(int) -> Row<F>, a: int, b: int) -> Seq<F> decreases b - a + 1 {
    if a > b { seq![] } else { seq![t(a).w0, t(a).w1] + words(t, a + 1, b) }
}
pub proof fn words_len<F>(t: spec_fn(int) -> Row<F>, a: int, b: int) requires a <= b + 1 ensures words(t, a, b).len() == 2 * (b - a + 1) decreases b - a + 1
{ if a <= b { words_len(t, a + 1, b); } }
pub proof fn linked_at<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat, i: int)
    requires satisfied(p, t, n, step), 1 <= i <= n
    ensures t(i).mark == fone::<F>() || t(i).mark == fzero::<F>(),
        marked(t(i)) ==> t(i - 1).index == t(i - 1).out0 && t(i).in0 == fadd(t(i).ctrl, t(i).dom) && t(i).in1 == t(i).w0 && t(i).in2 == t(i).w1 && in_range(t(i - 1).ctrl, step),
        !marked(t(i)) ==> t(i - 1).ctrl == fadd(t(i).ctrl, fnat::<F>(step * unit())) && t(i).ctrl != fzero::<F>() && t(i).index == t(i - 1).index
            && t(i).in0 == fadd(t(i - 1).out0, t(i).dom) && t(i).in1 == fadd(t(i - 1).out1, t(i).w0) && t(i).in2 == fadd(t(i - 1).out2, t(i).w1),
        permuted(p, t(i)),
{
    reveal(satisfied);
    broadcast use laws;
    assert(t(i).q == fone::<F>());
    assert(linked(t(i - 1), t(i), fnat::<F>(step * unit())));
    assert(in_range(fmul(t(i).mark, t(i - 1).ctrl), step));
    assert(fzero::<F>() != fone::<F>());
}
/// an unmarked first row would make the controls run through more than the modulus
pub proof fn unmarked_run<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat, k: int)
    requires satisfied(p, t, n, step), 0 <= k <= n, forall|i: int| 1 <= i <= k ==> !marked(#[trigger] t(i)), (n + 1) * (step * unit()) < modulus::<F>()
    ensures forall|c: nat| t(k).ctrl == #[trigger] fnat::<F>(c) && c <= step * unit() ==> t(0).ctrl == fnat::<F>((c + k * (step * unit())) as nat)
    decreases k
{
    let u = step * unit();
    assert forall|c: nat| t(k).ctrl == #[trigger] fnat::<F>(c) && c <= u implies t(0).ctrl == fnat::<F>((c + k * u) as nat) by {
        unmarked_ctrl(p, t, n, step, k, c);
    }
}
proof fn unmarked_ctrl<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat, k: int, c: nat)
    requires satisfied(p, t, n, step), 0 <= k <= n, forall|i: int| 1 <= i <= k ==> !marked(#[trigger] t(i)), t(k).ctrl == fnat::<F>(c)
    ensures t(0).ctrl == fnat::<F>((c + k * (step * unit())) as nat), k * (step * unit()) >= 0
    decreases k
{
    let u = step * unit();
    if k == 0 { assert(k * u == 0); } else {
        linked_at(p, t, n, step, k);
        fnat_add::<F>(c, u);
        unmarked_ctrl(p, t, n, step, k - 1, c + u);
        assert(c + u + (k - 1) * u == c + k * u) by (nonlinear_arith);
        assert((k - 1) * u + u == k * u) by (nonlinear_arith);
    }
}
proof fn last_marked<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat)
    requires satisfied(p, t, n, step)
    ensures n >= 1, marked(t(n)), t(0).ctrl == fzero::<F>(), t(n).ctrl == fzero::<F>(), t(0).w0 == fzero::<F>(), t(0).w1 == fzero::<F>(), t(n).w0 == fzero::<F>(), t(n).w1 == fzero::<F>()
{
    broadcast use laws;
    reveal(satisfied);
    linked_at(p, t, n, step, n);
    assert(linked(t(n - 1), t(n), fnat::<F>(step * unit())));
    assert(linked(t(-1), t(0), fnat::<F>(step * unit())));
    assert(fzero::<F>() != fone::<F>());
}
/// the first row is marked
pub proof fn first_marked<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat)
    requires satisfied(p, t, n, step), (n + 1) * (step * unit()) < modulus::<F>()
    ensures marked(t(1))
{
    if !marked(t(1)) {
        last_marked(p, t, n, step);
        let k = first_from(t, 1, n);
        first_is(t, 1, n);
        linked_at(p, t, n, step, k);
        linked_at(p, t, n, step, k - 1);
        let u = step * unit();
        let j = choose|j: nat| j <= step && t(k - 1).ctrl == #[trigger] fnat::<F>(j * unit());
        let c = j * unit();
        assert(t(k - 1).ctrl == fnat::<F>(c));
        assert(j != 0) by { if j == 0 { assert(c == 0); } }
        unmarked_ctrl(p, t, n, step, k - 1, c);
        assert(c <= u) by (nonlinear_arith) requires c == j * unit(), u == step * unit(), j <= step;
        assert(c > 0) by (nonlinear_arith) requires c == j * unit(), j > 0, unit() > 0;
        assert(c + (k - 1) * u <= u + n * u) by (nonlinear_arith) requires c <= u, k - 1 <= n, u >= 0;
        assert(u + n * u == (n + 1) * u) by (nonlinear_arith);
        fnat_inj::<F>((c + (k - 1) * u) as nat, 0);
    }
}
/// the first marked row from a on
pub open spec fn first_from<F>(t: spec_fn(int) -> Row<F>, a: int, n: int) -> int decreases n - a { if a >= n || marked(t(a)) { a } else { first_from(t, a + 1, n) } }
proof fn first_is<F>(t: spec_fn(int) -> Row<F>, a: int, n: int)
    requires a <= n, marked(t(n))
    ensures a <= first_from(t, a, n) <= n, marked(t(first_from(t, a, n))), forall|i: int| a <= i < first_from(t, a, n) ==> !marked(#[trigger] t(i))
    decreases n - a
{ if a < n && !marked(t(a)) { first_is(t, a + 1, n); } }
/// inside an entry the sponge goes on: the output of its last row is the sponge over the words from row i on
proof fn entry_sponge<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat, a: int, b: int, i: int, s: Seq<F>)
    requires satisfied(p, t, n, step), entry(t, n, a, b), a <= i <= b, forall|k: int| a < k <= b ==> (#[trigger] t(k)).dom == fzero::<F>(),
        s.len() == 3, s[0] == t(i).in0, fadd(s[1], t(i).w0) == t(i).in1, fadd(s[2], t(i).w1) == t(i).in2,
    ensures sponge(p, s, words(t, i, b), 2, 1) == seq![t(b).out0, t(b).out1, t(b).out2]
    decreases b - i
{
    let m = words(t, i, b);
    words_len(t, i, b);
    words_len(t, i + 1, b);
    linked_at(p, t, n, step, i);
    let f = m.subrange(0, 2);
    assert(f =~= seq![t(i).w0, t(i).w1]);
    assert(add_at(s, f, 1) =~= seq![t(i).in0, t(i).in1, t(i).in2]);
    if i == b {
        assert(m =~= f);
    } else {
        linked_at(p, t, n, step, i + 1);
        assert(!marked(t(i + 1)));
        assert(m.subrange(2, m.len() as int) =~= words(t, i + 1, b));
        let o = seq![t(i).out0, t(i).out1, t(i).out2];
        f_add_zero_r(t(i).out0);
        entry_sponge(p, t, n, step, a, b, i + 1, o);
    }
}
proof fn entry_index<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat, a: int, b: int, i: int)
    requires satisfied(p, t, n, step), entry(t, n, a, b), a <= i <= b
    ensures t(i).index == t(b).out0
    decreases b - i
{
    if i < b { linked_at(p, t, n, step, i + 1); assert(!marked(t(i + 1))); entry_index(p, t, n, step, a, b, i + 1); } else { linked_at(p, t, n, step, b + 1); }
}
/// C14: marks are boolean, the first row and the closing row are marked; row 0 and the closing row hold nothing
pub proof fn table_marks<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat)
    requires satisfied(p, t, n, step), (n + 1) * (step * unit()) < modulus::<F>()
    ensures forall|i: int| 1 <= i <= n ==> (#[trigger] t(i)).mark == fzero::<F>() || t(i).mark == fone::<F>(), t(1).mark == fone::<F>(), t(n).mark == fone::<F>(),
        t(0).ctrl == fzero::<F>(), t(n).ctrl == fzero::<F>(), t(0).w0 == fzero::<F>(), t(0).w1 == fzero::<F>(), t(n).w0 == fzero::<F>(), t(n).w1 == fzero::<F>()
{
    assert forall|i: int| 1 <= i <= n implies (#[trigger] t(i)).mark == fzero::<F>() || t(i).mark == fone::<F>() by { linked_at(p, t, n, step, i); }
    first_marked(p, t, n, step);
    last_marked(p, t, n, step);
}
/// C14: every entry: its index, its digest, its controls
pub proof fn table_entries<F: Field>(p: spec_fn(Seq<F>) -> Seq<F>, t: spec_fn(int) -> Row<F>, n: int, step: nat, a: int, b: int)
    requires satisfied(p, t, n, step), entry(t, n, a, b)
    ensures
        forall|i: int| a <= i <= b && (forall|k: int| a < k <= b ==> (#[trigger] t(k)).dom == fzero::<F>()) ==> (#[trigger] t(i)).index == digest(p, 3, 2, 1, fadd(t(a).ctrl, t(a).dom), words(t, a, b)),
        forall|i: int| a < i <= b ==> t(i - 1).ctrl == fadd((#[trigger] t(i)).ctrl, fnat::<F>(step * unit())) && t(i).ctrl != fzero::<F>(),
        in_range(t(b).ctrl, step),
{
    if forall|k: int| a < k <= b ==> (#[trigger] t(k)).dom == fzero::<F>() {
        let cap = fadd(t(a).ctrl, t(a).dom);
        let m = words(t, a, b);
        words_len(t, a, b);
        assert(cap_at(2, 1, 3) == 0);
        assert(padded(m, 2) =~= m) by { assert(pad_len(m.len() as int, 2) == 0); }
        let s = start(3, 0, cap);
        assert(s =~= seq![cap, fzero::<F>(), fzero::<F>()]);
        linked_at(p, t, n, step, a);
        f_add_zero_l(t(a).w0); f_add_zero_l(t(a).w1);
        assert(s[0] == cap && s[1] == fzero::<F>() && s[2] == fzero::<F>());
        assert(t(a).in0 == cap && t(a).in1 == t(a).w0 && t(a).in2 == t(a).w1);
        assert(fadd(s[1], t(a).w0) == t(a).w0 && fadd(s[2], t(a).w1) == t(a).w1);
        entry_sponge(p, t, n, step, a, b, a, s);
        assert(digest(p, 3, 2, 1, cap, m) == t(b).out0);
        assert forall|i: int| a <= i <= b implies (#[trigger] t(i)).index == digest(p, 3, 2, 1, cap, m) by { entry_index(p, t, n, step, a, b, i); }
    }
    assert forall|i: int| a < i <= b implies t(i - 1).ctrl == fadd((#[trigger] t(i)).ctrl, fnat::<F>(step * unit())) && t(i).ctrl != fzero::<F>() by { linked_at(p, t, n, step, i); }
    linked_at(p, t, n, step, b + 1);
}

pub open spec fn shift<F>(tab: spec_fn(Cell, int) -> F, i: int) -> Around<F> { |c: Cell, r: int| tab(c, i + r) }
/// the constraints of configure_sub at rows 0..=n, the range column as load fills it, the permutation circuit behind
/// each row: exactly the premise of the theorems above
pub proof fn table_is_satisfied<F: Hashable, PC: PermuteChip<F, F::SpecType, 3, 2>>(p: spec_fn(Seq<F>) -> Seq<F>, cfg: SpongeConfig<F, PC>, tab: spec_fn(Cell, int) -> F, tb: Tables<F>, n: int)
    requires n >= 1,
        forall|i: int| 0 <= i <= n ==> cfg.own(#[trigger] shift(tab, i), tb),
        forall|r: int| #[trigger] is_row(r) ==> in_range(tb(cfg.range(), r), cfg.steps() as nat),
        forall|i: int| 1 <= i <= n ==> (#[trigger] cfg.row(tab, i)).q == fone::<F>() && permuted(p, cfg.row(tab, i)),
        cfg.row(tab, 0).custom == fone::<F>(), cfg.row(tab, n).custom == fone::<F>(),
    ensures satisfied(p, |i: int| cfg.row(tab, i), n, cfg.steps() as nat)
{
    reveal(satisfied);
    let t = |i: int| cfg.row(tab, i);
    let step = cfg.steps() as nat;
    assert forall|i: int| 0 <= i <= n implies linked(t(i - 1), #[trigger] t(i), fnat::<F>(step * unit())) && in_range(fmul(t(i).mark, t(i - 1).ctrl), step) by {
        let a = shift(tab, i);
        assert(cfg.own(a, tb));
        assert(cfg.row(a, 0) == t(i));
        assert(cfg.row(a, -1) == t(i - 1));
    }
}
