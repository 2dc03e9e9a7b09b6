// ---------------------------------------------------------------- any assignment, and the honest one
/// the values of a region, any rows
pub type Grid<F> = spec_fn(Cell, int) -> F;
pub open spec fn near<F>(w: Grid<F>, y: int) -> Around<F> { |c: Cell, o: int| w(c, y + o) }
/// the assignment has the fixed cells and selectors of m; a selector it does not set is 0
pub open spec fn keeps<F>(w: Grid<F>, m: Cells<F>) -> bool {
    forall|c: Cell, y: int| !(c is Advice) ==> #[trigger] w(c, y) == (match m(c, y) { Some(v) => v, None => if c is Selector { fzero() } else { w(c, y) } })
}
/// what was assigned; 0 elsewhere
pub open spec fn honest<F>(w: Grid<F>, m: Cells<F>) -> bool { forall|c: Cell, y: int| #[trigger] w(c, y) == (match m(c, y) { Some(v) => v, None => fzero() }) }
/// m undoes what inv does
pub open spec fn undoes<F>(m: Seq<Seq<F>>, inv: Seq<Seq<F>>, t: nat) -> bool { forall|z: Seq<F>| z.len() == t ==> mat_vec(m, #[trigger] mat_vec(inv, z)) == z }
/// row i of a times column k of b, the first n products
pub open spec fn entry<F>(a: Seq<Seq<F>>, b: Seq<Seq<F>>, i: int, k: int, n: nat) -> F decreases n { if n == 0 { fzero() } else { fadd(entry(a, b, i, k, (n - 1) as nat), fmul(a[i][n - 1], b[n - 1][k])) } }
/// the matrix product is the identity (C08)
pub open spec fn inverse<F>(a: Seq<Seq<F>>, b: Seq<Seq<F>>, t: nat) -> bool { forall|i: int, k: int| 0 <= i < t && 0 <= k < t ==> #[trigger] entry(a, b, i, k, t) == (if i == k { fone::<F>() } else { fzero::<F>() }) }
/// sum over k < q of (sum over j < n of a[i][j] b[j][k]) z[k]
spec fn by_column<F>(a: Seq<Seq<F>>, b: Seq<Seq<F>>, z: Seq<F>, i: int, n: nat, q: nat) -> F decreases q { if q == 0 { fzero() } else { fadd(by_column(a, b, z, i, n, (q - 1) as nat), fmul(entry(a, b, i, q - 1, n), z[q - 1])) } }
/// sum over j < n of a[i][j] (sum over k < q of b[j][k] z[k])
spec fn by_row<F>(a: Seq<Seq<F>>, b: Seq<Seq<F>>, z: Seq<F>, i: int, n: nat, q: nat) -> F decreases n { if n == 0 { fzero() } else { fadd(by_row(a, b, z, i, (n - 1) as nat, q), fmul(a[i][n - 1], dot(b[n - 1], z, q))) } }
proof fn four<F: Field>(a: F, b: F, c: F, d: F) ensures fadd(fadd(a, b), fadd(c, d)) == fadd(fadd(a, c), fadd(b, d)) {
    super::f_add_assoc(fadd(a, b), c, d); super::f_add_assoc(a, b, c); super::f_add_comm(b, c); super::f_add_assoc(a, c, b); super::f_add_assoc(fadd(a, c), b, d);
}
proof fn col_zero<F: Field>(a: Seq<Seq<F>>, b: Seq<Seq<F>>, z: Seq<F>, i: int, q: nat) ensures by_column(a, b, z, i, 0, q) == fzero::<F>() decreases q {
    broadcast use super::laws;
    if q > 0 { col_zero(a, b, z, i, (q - 1) as nat); assert(fmul(entry(a, b, i, q - 1, 0), z[q - 1]) == fzero::<F>()); }
}
/// one more row of b: every column gains its product
proof fn col_step<F: Field>(a: Seq<Seq<F>>, b: Seq<Seq<F>>, z: Seq<F>, i: int, n: nat, q: nat)
    ensures by_column(a, b, z, i, n + 1, q) == fadd(by_column(a, b, z, i, n, q), fmul(a[i][n as int], dot(b[n as int], z, q))) decreases q
{
    broadcast use super::laws;
    let (x, r) = (a[i][n as int], b[n as int]);
    if q == 0 { assert(fmul(x, fzero::<F>()) == fzero::<F>()); } else {
        let k = (q - 1) as nat;
        col_step(a, b, z, i, n, k);
        let (s, e) = (by_column(a, b, z, i, n, k), entry(a, b, i, k as int, n));
        super::f_mul_add(e, fmul(x, r[k as int]), z[k as int]);
        super::f_mul_assoc(x, r[k as int], z[k as int]);
        super::f_add_mul(x, dot(r, z, k), fmul(r[k as int], z[k as int]));
        assert(entry(a, b, i, k as int, n + 1) == fadd(e, fmul(x, r[k as int])));
        four(s, fmul(x, dot(r, z, k)), fmul(e, z[k as int]), fmul(x, fmul(r[k as int], z[k as int])));
    }
}
proof fn exchange<F: Field>(a: Seq<Seq<F>>, b: Seq<Seq<F>>, z: Seq<F>, i: int, n: nat, q: nat) ensures by_row(a, b, z, i, n, q) == by_column(a, b, z, i, n, q) decreases n {
    if n == 0 { col_zero(a, b, z, i, q); } else { exchange(a, b, z, i, (n - 1) as nat, q); col_step(a, b, z, i, (n - 1) as nat, q); }
}
proof fn row_is_dot<F: Field>(a: Seq<Seq<F>>, b: Seq<Seq<F>>, z: Seq<F>, i: int, n: nat)
    requires n <= z.len() ensures by_row(a, b, z, i, n, z.len()) == dot(a[i], mat_vec(b, z), n) decreases n
{ if n > 0 { row_is_dot(a, b, z, i, (n - 1) as nat); } }
proof fn picks<F: Field>(a: Seq<Seq<F>>, b: Seq<Seq<F>>, z: Seq<F>, i: int, q: nat)
    requires inverse(a, b, z.len()), 0 <= i < z.len(), q <= z.len()
    ensures by_column(a, b, z, i, z.len(), q) == (if i < q { z[i] } else { fzero::<F>() }) decreases q
{
    broadcast use super::laws;
    if q > 0 {
        picks(a, b, z, i, (q - 1) as nat);
        assert(entry(a, b, i, q - 1, z.len()) == (if i == q - 1 { fone::<F>() } else { fzero::<F>() }));
        assert(fmul(fzero::<F>(), z[q - 1]) == fzero::<F>());
    }
}
pub proof fn inverse_undoes<F: Field>(m: Seq<Seq<F>>, inv: Seq<Seq<F>>, t: nat) requires inverse(m, inv, t) ensures undoes(m, inv, t) {
    assert forall|z: Seq<F>| z.len() == t implies mat_vec(m, #[trigger] mat_vec(inv, z)) == z by {
        assert forall|i: int| 0 <= i < t implies #[trigger] mat_vec(m, mat_vec(inv, z))[i] == z[i] by {
            exchange(m, inv, z, i, t, t); row_is_dot(m, inv, z, i, t); picks(m, inv, z, i, t);
        }
        assert(mat_vec(m, mat_vec(inv, z)) =~= z);
    }
}
impl<F: PrimeField, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    pub open spec fn gates(self, a: Around<F>) -> bool { self.full(a) && self.pair(a) && self.single(a) && self.pad(a) }
    pub open spec fn row_of(self, w: Grid<F>, y: int) -> Seq<F> { adv(self.state@, near(w, y), 0) }
    proof fn keyed_row(self, w: Grid<F>, m: Cells<F>, s: Seq<F>, p: int, y: int)
        requires self.wf(), self.sized(p), self.laid(m, s, p, self.depth(p)), keeps(w, m), 0 <= y < self.depth(p)
        ensures w(self.sel_at(p, y).c(), y) == fone::<F>(), fix(self.rc_a@, near(w, y)) == self.rc()[self.first(p, y)], self.is_pair(y) ==> fix(self.rc_b@, near(w, y)) == self.rc()[self.first(p, y) + 1]
    {
        self.row(s, p, y);
        let sel = self.sel_at(p, y);
        let n = self.depth(p);
        let q = m(sel.c(), y);
        assert forall|i: int| 0 <= i < WIDTH implies #[trigger] w(self.rc_a@[i].c(), y) == self.rc()[self.first(p, y)][i] by {
            let x = self.rc_a@[i].c();
            assert(cs(self.rc_a@)[i] == x); col_kinds(self.rc_a@, x);
            assert(m(x, y) == self.upto(s, p, n, x, y));
        }
        assert(fix(self.rc_a@, near(w, y)) =~= self.rc()[self.first(p, y)]);
        if self.is_pair(y) {
            assert forall|i: int| 0 <= i < WIDTH implies #[trigger] w(self.rc_b@[i].c(), y) == self.rc()[self.first(p, y) + 1][i] by {
                let x = self.rc_b@[i].c();
                assert(cs(self.rc_b@)[i] == x); col_kinds(self.rc_b@, x);
                assert(m(x, y) == self.upto(s, p, n, x, y));
            }
            assert(fix(self.rc_b@, near(w, y)) =~= self.rc()[self.first(p, y) + 1]);
        }
    }
    /// C12: whatever satisfies the gates has the published permutation in its last row
    pub proof fn sound(self, w: Grid<F>, m: Cells<F>, s: Seq<F>, p: int, n: int)
        requires self.wf(), self.sized(p), self.laid(m, s, p, self.depth(p)), keeps(w, m), inverse(self.m(), self.inv(), WIDTH as nat),
            forall|y: int| self.gates(#[trigger] near(w, y)), 0 <= n <= self.depth(p)
        ensures self.row_of(w, n) == self.st(self.row_of(w, 0), p, n)
        decreases n
    {
        let t = self.row_of(w, 0);
        if n == 0 { reveal_with_fuel(rounds, 1); } else {
            let y = n - 1;
            self.sound(w, m, s, p, y);
            self.row(t, p, y);
            self.keyed_row(w, m, s, p, y);
            broadcast use super::f_zero_one;
            let a = near(w, y);
            assert(self.gates(a));
            assert(a(self.sel_at(p, y).c(), 0) == fone::<F>());
            assert(adv(self.state@, a, 1) =~= self.row_of(w, n));
            assert(self.row_of(w, y) == adv(self.state@, a, 0));
            if self.is_pair(y) {
                let (k, q, kb, z) = (self.key(a), a(self.partial_sbox.c(), 0), fix(self.rc_b@, a), adv(self.state@, a, 1));
                let (px, py) = (pair_x(self.m(), k, q, kb), pair_y(self.inv(), q, z));
                assert(px == py);
                assert(px[0] == py[0]);
                assert(px.drop_first() =~= sb0(between(self.m(), k, q, kb)));
                assert(py.drop_first() =~= mat_vec(self.inv(), z));
                inverse_undoes(self.m(), self.inv(), WIDTH as nat);
                assert(z.len() == WIDTH);
                assert(mat_vec(self.m(), mat_vec(self.inv(), z)) == z);
            }
        }
    }
    /// the state in row 0 of the cells assigned is the one they were made from
    proof fn honest_row(self, w: Grid<F>, m: Cells<F>, s: Seq<F>, p: int, y: int)
        requires self.wf(), self.sized(p), s.len() == WIDTH, self.laid(m, s, p, self.depth(p)), honest(w, m), 0 <= y <= self.depth(p)
        ensures self.row_of(w, y) == self.st(s, p, y)
    {
        rounds_len(s, self.m(), self.rc(), self.h(), p, self.first(p, y) as nat);
        assert forall|i: int| 0 <= i < WIDTH implies #[trigger] w(self.state@[i].c(), y) == self.st(s, p, y)[i] by {
            let x = self.state@[i].c();
            assert(cs(self.state@)[i] == x); col_kinds(self.state@, x); col_kinds(self.rc_a@, x); col_kinds(self.rc_b@, x);
            assert(m(x, y) == self.upto(s, p, self.depth(p), x, y));
        }
        assert(self.row_of(w, y) =~= self.st(s, p, y));
    }
    proof fn off(self, w: Grid<F>, m: Cells<F>, s: Seq<F>, p: int, q: Selector, y: int)
        requires self.wf(), self.sized(p), self.laid(m, s, p, self.depth(p)), honest(w, m), !(0 <= y < self.depth(p)) || q != self.sel_at(p, y)
        ensures w(q.c(), y) == fzero::<F>()
    {
        let x = q.c();
        col_kinds(self.state@, x); col_kinds(self.rc_a@, x); col_kinds(self.rc_b@, x);
        assert(m(x, y) == self.upto(s, p, self.depth(p), x, y));
    }
    /// C13: what permute assigns satisfies the gates in every row
    pub proof fn complete(self, w: Grid<F>, m: Cells<F>, s: Seq<F>, p: int, y: int)
        requires self.wf(), self.sized(p), s.len() == WIDTH, self.laid(m, s, p, self.depth(p)), honest(w, m), inverse(self.inv(), self.m(), WIDTH as nat)
        ensures self.gates(near(w, y)), self.row_of(w, 0) == s, self.row_of(w, self.depth(p)) == rounds(s, self.m(), self.rc(), self.h(), p, (2 * self.h() + p) as nat)
    {
        let a = near(w, y);
        let sel = self.sel_at(p, y);
        self.honest_row(w, m, s, p, 0); self.honest_row(w, m, s, p, self.depth(p));
        reveal_with_fuel(rounds, 1);
        if !(0 <= y < self.depth(p)) || self.s_full != sel { self.off(w, m, s, p, self.s_full, y); }
        if !(0 <= y < self.depth(p)) || self.s_partial != sel { self.off(w, m, s, p, self.s_partial, y); }
        if !(0 <= y < self.depth(p)) || self.s_partial_single != sel { self.off(w, m, s, p, self.s_partial_single, y); }
        self.off(w, m, s, p, self.s_pad_and_add, y);
        if 0 <= y < self.depth(p) {
            self.row(s, p, y);
            self.honest_row(w, m, s, p, y); self.honest_row(w, m, s, p, y + 1);
            self.keyed_row(w, m, s, p, y);
            assert(adv(self.state@, a, 1) =~= self.row_of(w, y + 1));
            assert(self.row_of(w, y) == adv(self.state@, a, 0));
            if self.is_pair(y) {
                let (k, q, kb, z) = (self.key(a), a(self.partial_sbox.c(), 0), fix(self.rc_b@, a), adv(self.state@, a, 1));
                let x = self.partial_sbox.c();
                col_kinds(self.rc_a@, x); col_kinds(self.rc_b@, x);
                assert(m(x, y) == self.upto(s, p, self.depth(p), x, y));
                assert(q == p5(k[0])) by { assert(w(x, y + 0) == w(x, y)); rounds_len(s, self.m(), self.rc(), self.h(), p, self.first(p, y) as nat); }
                let v = sb0(between(self.m(), k, q, kb));
                assert(mat_vec(self.m(), v) == z);
                inverse_undoes(self.inv(), self.m(), WIDTH as nat);
                assert(mat_vec(self.inv(), mat_vec(self.m(), v)) == v);
                assert(pair_x(self.m(), k, q, kb) =~= pair_y(self.inv(), q, z));
            }
        }
    }
    proof fn add_keeps(self, w: Grid<F>, m: Cells<F>, s: Seq<F>, i: Seq<Option<PaddedWord<F>>>, q: Selector, y: int)
        requires self.wf(), RATE == WIDTH - 1, self.add_laid(m, s, i), keeps(w, m)
        ensures w(q.c(), y) == (if q == self.s_pad_and_add && y == 1 { fone::<F>() } else { fzero::<F>() })
    {
        let x = q.c();
        col_kinds(self.state@, x); col_kinds(self.rc_b@, x);
        assert(m(x, y) == self.add_cell(s, i, x, y));
    }
    /// C12: the padding step adds the words in row 1 to the rate part of the state and nothing to the capacity; padding is in the fixed column
    pub proof fn add_sound(self, w: Grid<F>, m: Cells<F>, s: Seq<F>, i: Seq<Option<PaddedWord<F>>>, k: int)
        requires self.wf(), RATE == WIDTH - 1, i.len() == RATE, self.add_laid(m, s, i), keeps(w, m), forall|y: int| self.gates(#[trigger] near(w, y)), 0 <= k < RATE
        ensures self.row_of(w, 2) == self.out(self.row_of(w, 0), self.row_of(w, 1)), i[k]->0 is Padding ==> w(self.rc_b@[k].c(), 1) == wv(i[k])
    {
        self.add_keeps(w, m, s, i, self.s_pad_and_add, 1);
        broadcast use super::f_zero_one;
        let a = near(w, 1);
        assert(self.gates(a));
        assert(adv(self.state@, a, 1) =~= self.row_of(w, 2)); assert(adv(self.state@, a, 0) =~= self.row_of(w, 1)); assert(adv(self.state@, a, -1) =~= self.row_of(w, 0));
        assert(added(self.row_of(w, 0), self.row_of(w, 1)) =~= self.out(self.row_of(w, 0), self.row_of(w, 1)));
        let x = self.rc_b@[k].c();
        assert(cs(self.rc_b@)[k] == x);
        col_kinds(self.state@, x); col_kinds(self.rc_b@, x);
        assert(m(x, 1) == self.add_cell(s, i, x, 1));
    }
    /// C13: what add_input assigns satisfies the gates in every row
    pub proof fn add_complete(self, w: Grid<F>, m: Cells<F>, s: Seq<F>, i: Seq<Option<PaddedWord<F>>>, y: int)
        requires self.wf(), RATE == WIDTH - 1, i.len() == RATE, s.len() == WIDTH, self.add_laid(m, s, i), honest(w, m)
        ensures self.gates(near(w, y)), self.row_of(w, 0) == s, self.row_of(w, 1).take(RATE as int) == wvs(i), self.row_of(w, 2) == self.out(s, wvs(i))
    {
        self.add_keeps(w, m, s, i, self.s_full, y); self.add_keeps(w, m, s, i, self.s_partial, y); self.add_keeps(w, m, s, i, self.s_partial_single, y); self.add_keeps(w, m, s, i, self.s_pad_and_add, y);
        assert forall|k: int| 0 <= k < WIDTH implies #[trigger] w(self.state@[k].c(), 0) == s[k] && w(self.state@[k].c(), 2) == self.out(s, wvs(i))[k] && (k < RATE ==> w(self.state@[k].c(), 1) == wvs(i)[k]) by {
            let x = self.state@[k].c();
            assert(cs(self.state@)[k] == x); col_kinds(self.state@, x); col_kinds(self.rc_b@, x);
            assert(m(x, 0) == self.add_cell(s, i, x, 0)); assert(m(x, 1) == self.add_cell(s, i, x, 1)); assert(m(x, 2) == self.add_cell(s, i, x, 2));
        }
        assert(self.row_of(w, 0) =~= s);
        assert forall|k: int| 0 <= k < RATE implies #[trigger] self.row_of(w, 1).take(RATE as int)[k] == wvs(i)[k] by { assert(w(self.state@[k].c(), 0) == s[k]); }
        assert(self.row_of(w, 1).take(RATE as int) =~= wvs(i)); assert(self.row_of(w, 2) =~= self.out(s, wvs(i)));
        if y == 1 {
            let a = near(w, 1);
            assert(adv(self.state@, a, 1) =~= self.row_of(w, 2)); assert(adv(self.state@, a, 0) =~= self.row_of(w, 1)); assert(adv(self.state@, a, -1) =~= self.row_of(w, 0));
            assert(self.row_of(w, 1).take(RATE as int).len() == RATE);
            assert forall|k: int| 0 <= k < RATE implies self.row_of(w, 1)[k] == #[trigger] wvs(i)[k] by { assert(self.row_of(w, 1).take(RATE as int)[k] == self.row_of(w, 1)[k]); }
            assert(added(self.row_of(w, 0), self.row_of(w, 1)) =~= self.out(s, wvs(i)));
        }
    }
    /// the first state of a domain in the cells initial_state assigns
    pub proof fn start_row(self, w: Grid<F>, m: Cells<F>, cap: F, y: int)
        requires self.wf(), RATE == WIDTH - 1, row_put(blank::<F>(), m, cs(self.state@), 0, start(cap, RATE as int), WIDTH as int), honest(w, m)
        ensures self.gates(near(w, y)), self.row_of(w, 0) == start(cap, RATE as int)
    {
        let z = start(cap, RATE as int);
        assert forall|q: Selector| #[trigger] w(q.c(), y) == fzero::<F>() by { let x = q.c(); col_kinds(self.state@, x); let v = m(x, y); }
        assert(w(self.s_full.c(), y + 0) == fzero::<F>());
        assert forall|k: int| 0 <= k < WIDTH implies #[trigger] w(self.state@[k].c(), 0) == z[k] by { let x = self.state@[k].c(); assert(cs(self.state@)[k] == x); col_kinds(self.state@, x); let v = m(x, 0); }
        assert(self.row_of(w, 0) =~= z);
    }
}
impl<F: FromUniformBytes<64> + Ord, const WIDTH: usize, const RATE: usize> Pow5Config<F, WIDTH, RATE> {
    /// what configure returns is what the rest asks for, when the columns handed to it are distinct
    pub proof fn ready<S: Spec<F, WIDTH, RATE>>(self, n: int, st: [Column<Advice>; WIDTH], ps: Column<Advice>, ka: [Column<Fixed>; WIDTH], kb: [Column<Fixed>; WIDTH])
        requires self.is(st, ps, ka, kb), self.of::<S>(), self.sel(n), 2 <= WIDTH <= 0x4000_0000,
            cs(st@).no_duplicates(), cs(ka@).no_duplicates(), cs(kb@).no_duplicates(), !cs(st@).contains(ps.c()), forall|x: Cell| cs(ka@).contains(x) ==> !#[trigger] cs(kb@).contains(x),
            S::s_full_rounds() % 2 == 0, S::s_rc().len() == S::s_full_rounds() + S::s_partial_rounds(), S::s_full_rounds() < 0x1_0000_0000, S::s_partial_rounds() < 0x1_0000_0000
        ensures self.wf(), self.sized(S::s_partial_rounds() as int), 2 * self.h() == S::s_full_rounds()
    {
        assert(rows(self.round_constants@).len() == self.round_constants@.len());
    }
}
