// ---- C02: moving constants through the linear layer
pub open spec fn tail_of<F>(v: Seq<F>) -> Seq<F> { v.update(0, fzero()) }
pub open spec fn head_of<F>(v: Seq<F>) -> Seq<F> { Seq::new(v.len(), |i: int| if i == 0 { v[0] } else { fzero() }) }
/// one step: the constants of round i that miss the S-box are carried into round i + 1
pub open spec fn cstep<F>(rc: Seq<Seq<F>>, m: Seq<Seq<F>>, i: int) -> Seq<Seq<F>> {
    rc.update(i, head_of(rc[i])).update(i + 1, add_rc(rc[i + 1], mat_vec(m, tail_of(rc[i]))))
}
pub open spec fn compact<F>(rc: Seq<Seq<F>>, m: Seq<Seq<F>>, h: int, k: nat) -> Seq<Seq<F>> decreases k {
    if k == 0 { rc } else { cstep(compact(rc, m, h, (k - 1) as nat), m, h + k - 1) }
}
pub proof fn compact_len<F>(rc: Seq<Seq<F>>, m: Seq<Seq<F>>, h: int, k: nat) ensures compact(rc, m, h, k).len() == rc.len() decreases k {
    if k > 0 { compact_len(rc, m, h, (k - 1) as nat); }
}
pub open spec fn wide<F>(rc: Seq<Seq<F>>, t: int) -> bool { forall|i: int| 0 <= i < rc.len() ==> (#[trigger] rc[i]).len() == t }
pub proof fn compact_wide<F>(rc: Seq<Seq<F>>, m: Seq<Seq<F>>, h: int, k: nat, t: int)
    requires wide(rc, t), 0 <= h, h + k < rc.len(),
    ensures wide(compact(rc, m, h, k), t), compact(rc, m, h, k).len() == rc.len(), decreases k
{
    if k > 0 {
        compact_wide(rc, m, h, (k - 1) as nat, t);
        let c = compact(rc, m, h, (k - 1) as nat);
        assert(c[h + k].len() == t);
        assert(c[h + k - 1].len() == t);
    }
}
pub proof fn dot_linear<F: Field>(a: Seq<F>, x: Seq<F>, y: Seq<F>, n: nat)
    requires n <= x.len(), x.len() == y.len(),
    ensures dot(a, add_rc(x, y), n) == fadd(dot(a, x, n), dot(a, y, n)),
    decreases n
{
    ring_laws::<F>(fzero(), fzero(), fzero());
    if n > 0 {
        let k = (n - 1) as nat;
        dot_linear(a, x, y, k);
        let (p, q, u, v) = (dot(a, x, k), dot(a, y, k), fmul(a[n - 1], x[n - 1]), fmul(a[n - 1], y[n - 1]));
        ring_laws::<F>(a[n - 1], x[n - 1], y[n - 1]);
        // (p + q) + (u + v) == (p + u) + (q + v)
        ring_laws::<F>(fadd(p, q), u, v);
        ring_laws::<F>(p, q, u);
        ring_laws::<F>(q, u, u);
        ring_laws::<F>(p, u, q);
        ring_laws::<F>(fadd(p, u), q, v);
    }
}
pub proof fn mat_linear<F: Field>(m: Seq<Seq<F>>, x: Seq<F>, y: Seq<F>)
    requires x.len() == y.len(),
    ensures mat_vec(m, add_rc(x, y)) == add_rc(mat_vec(m, x), mat_vec(m, y)),
{
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] mat_vec(m, add_rc(x, y))[i] == add_rc(mat_vec(m, x), mat_vec(m, y))[i] by { dot_linear(m[i], x, y, x.len()); }
    assert(mat_vec(m, add_rc(x, y)) =~= add_rc(mat_vec(m, x), mat_vec(m, y)));
}
/// one carried constant does not change the input of the next round
pub proof fn carry<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(s: Seq<F>, m: Seq<Seq<F>>, c: Seq<F>, d: Seq<F>)
    requires s.len() == T, c.len() == T, d.len() == T, T > 0,
    ensures add_rc(part_s::<F, S, T, RATE>(s, m, head_of(c)), add_rc(d, mat_vec(m, tail_of(c)))) == add_rc(part_s::<F, S, T, RATE>(s, m, c), d),
{
    let a = add_rc(s, head_of(c)).update(0, S::s_sbox(add_rc(s, head_of(c))[0]));
    let b = add_rc(s, c).update(0, S::s_sbox(add_rc(s, c)[0]));
    let t = tail_of(c);
    assert forall|i: int| 0 <= i < T implies #[trigger] b[i] == add_rc(a, t)[i] by {
        ring_laws::<F>(a[i], t[i], fzero());
        ring_laws::<F>(s[i], c[i], fzero());
    }
    assert(b =~= add_rc(a, t));
    mat_linear(m, a, t);
    let (x, y) = (mat_vec(m, a), mat_vec(m, t));
    assert forall|i: int| 0 <= i < T implies #[trigger] add_rc(x, add_rc(d, y))[i] == add_rc(add_rc(x, y), d)[i] by {
        ring_laws::<F>(d[i], y[i], x[i]);
        ring_laws::<F>(x[i], y[i], d[i]);
    }
    assert(add_rc(x, add_rc(d, y)) =~= add_rc(add_rc(x, y), d));
}
pub proof fn rounds_len<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<Seq<F>>, n: nat)
    ensures rounds::<F, S, T, RATE>(s, m, rc, n).len() == s.len() decreases n
{ if n > 0 { rounds_len::<F, S, T, RATE>(s, m, rc, (n - 1) as nat); } }
/// one step changes the state after no round but round i
pub proof fn step_same<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<Seq<F>>, i: int, n: nat)
    requires s.len() == T, T > 0, wide(rc, T as int), 0 <= i, i + 1 < rc.len(), n <= rc.len(),
      !is_full(i, S::s_full_rounds() as int / 2, S::s_partial_rounds() as int),
    ensures n != i + 1 ==> rounds::<F, S, T, RATE>(s, m, cstep(rc, m, i), n) == rounds::<F, S, T, RATE>(s, m, rc, n),
    decreases n
{
    let rd = cstep(rc, m, i);
    if n > 0 && n != i + 1 {
        step_same::<F, S, T, RATE>(s, m, rc, i, (n - 1) as nat);
        if n == i + 2 {
            step_same::<F, S, T, RATE>(s, m, rc, i, i as nat);
            let u = rounds::<F, S, T, RATE>(s, m, rc, i as nat);
            rounds_len::<F, S, T, RATE>(s, m, rc, i as nat);
            assert(rc[i].len() == T && rc[i + 1].len() == T);
            carry::<F, S, T, RATE>(u, m, rc[i], rc[i + 1]);
            assert(rd[i] == head_of(rc[i]));
            assert(rounds::<F, S, T, RATE>(s, m, rd, (i + 1) as nat) == part_s::<F, S, T, RATE>(u, m, rd[i]));
            assert(rounds::<F, S, T, RATE>(s, m, rc, (i + 1) as nat) == part_s::<F, S, T, RATE>(u, m, rc[i]));
            assert(add_rc(rounds::<F, S, T, RATE>(s, m, rd, (i + 1) as nat), rd[i + 1]) == add_rc(rounds::<F, S, T, RATE>(s, m, rc, (i + 1) as nat), rc[i + 1]));
        } else {
            assert(rd[n - 1] == rc[n - 1]);
        }
    }
}
/// C02: any number of carried rounds leaves the permutation unchanged, for every state, matrix and constants
pub proof fn compact_same<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(s: Seq<F>, m: Seq<Seq<F>>, rc: Seq<Seq<F>>, k: nat)
    requires s.len() == T, T > 0, wide(rc, T as int), S::s_full_rounds() >= 2, k <= S::s_partial_rounds(), rc.len() == n_rounds::<F, S, T, RATE>(),
    ensures perm::<F, S, T, RATE>(s, m, compact(rc, m, S::s_full_rounds() as int / 2, k)) == perm::<F, S, T, RATE>(s, m, rc),
    decreases k
{
    let h = S::s_full_rounds() as int / 2;
    compact_len(rc, m, h, k);
    if k > 0 {
        compact_same::<F, S, T, RATE>(s, m, rc, (k - 1) as nat);
        compact_wide(rc, m, h, (k - 1) as nat, T as int);
        step_same::<F, S, T, RATE>(s, m, compact(rc, m, h, (k - 1) as nat), h + k - 1, rc.len());
    }
}
