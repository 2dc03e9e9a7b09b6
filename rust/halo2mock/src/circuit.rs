use crate::plonk::*;
use ff::Field;
use std::borrow::Borrow;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::{Add, Mul, Neg, Sub};

// ------------------------------------------------------------------ Value
#[derive(Clone, Copy, Debug)]
pub struct Value<V> {
    inner: Option<V>,
}
impl<V> Default for Value<V> {
    fn default() -> Self {
        Self::unknown()
    }
}
impl<V> Value<V> {
    pub const fn unknown() -> Self {
        Self { inner: None }
    }
    pub const fn known(value: V) -> Self {
        Self { inner: Some(value) }
    }
    /// not in the original's public API; used by the harness only
    pub fn into_option(self) -> Option<V> {
        self.inner
    }
    pub fn as_ref(&self) -> Value<&V> {
        Value { inner: self.inner.as_ref() }
    }
    pub fn as_mut(&mut self) -> Value<&mut V> {
        Value { inner: self.inner.as_mut() }
    }
    pub fn map<W, F: FnOnce(V) -> W>(self, f: F) -> Value<W> {
        Value { inner: self.inner.map(f) }
    }
    pub fn and_then<W, F: FnOnce(V) -> Value<W>>(self, f: F) -> Value<W> {
        match self.inner {
            Some(v) => f(v),
            None => Value::unknown(),
        }
    }
    pub fn zip<W>(self, other: Value<W>) -> Value<(V, W)> {
        Value { inner: self.inner.zip(other.inner) }
    }
    pub fn assert_if_known<F: FnOnce(&V) -> bool>(&self, f: F) {
        assert!(self.inner.as_ref().map(f).unwrap_or(true));
    }
    pub fn error_if_known_and<F: FnOnce(&V) -> bool>(&self, f: F) -> Result<(), Error> {
        match self.inner.as_ref().map(f) {
            Some(true) => Err(Error::Synthesis),
            _ => Ok(()),
        }
    }
    pub fn transpose_array<const N: usize>(self) -> [Value<V::Elem>; N]
    where
        V: ArrayLike<N>,
    {
        match self.inner {
            Some(v) => v.to_array().map(Value::known),
            None => std::array::from_fn(|_| Value::unknown()),
        }
    }
}
pub trait ArrayLike<const N: usize> {
    type Elem;
    fn to_array(self) -> [Self::Elem; N];
}
impl<T, const N: usize> ArrayLike<N> for [T; N] {
    type Elem = T;
    fn to_array(self) -> [T; N] {
        self
    }
}
impl<V: Clone> Value<&V> {
    pub fn cloned(self) -> Value<V> {
        Value { inner: self.inner.cloned() }
    }
}
impl<V: Copy> Value<&V> {
    pub fn copied(self) -> Value<V> {
        Value { inner: self.inner.copied() }
    }
}
impl<V, W> Value<(V, W)> {
    pub fn unzip(self) -> (Value<V>, Value<W>) {
        match self.inner {
            Some((a, b)) => (Value::known(a), Value::known(b)),
            None => (Value::unknown(), Value::unknown()),
        }
    }
}
impl<A, V: FromIterator<A>> FromIterator<Value<A>> for Value<V> {
    fn from_iter<I: IntoIterator<Item = Value<A>>>(iter: I) -> Self {
        Self { inner: iter.into_iter().map(|v| v.inner).collect() }
    }
}
impl<V: Neg> Neg for Value<V> {
    type Output = Value<V::Output>;
    fn neg(self) -> Self::Output {
        self.map(|v| -v)
    }
}
macro_rules! value_ops {
    ($($tr:ident $m:ident),*) => {$(
        impl<V, O> $tr for Value<V> where V: $tr<Output = O> {
            type Output = Value<O>;
            fn $m(self, r: Self) -> Value<O> { self.zip(r).map(|(a, b)| a.$m(b)) }
        }
        impl<V, O> $tr<&Value<V>> for Value<V> where for<'v> V: $tr<&'v V, Output = O> {
            type Output = Value<O>;
            fn $m(self, r: &Self) -> Value<O> { self.zip(r.as_ref()).map(|(a, b)| a.$m(b)) }
        }
        impl<V, O> $tr<Value<V>> for &Value<V> where for<'v> &'v V: $tr<V, Output = O> {
            type Output = Value<O>;
            fn $m(self, r: Value<V>) -> Value<O> { self.as_ref().zip(r).map(|(a, b)| a.$m(b)) }
        }
        impl<V, O> $tr<&Value<V>> for &Value<V> where for<'v> &'v V: $tr<Output = O> {
            type Output = Value<O>;
            fn $m(self, r: &Value<V>) -> Value<O> { self.as_ref().zip(r.as_ref()).map(|(a, b)| a.$m(b)) }
        }
    )*};
}
value_ops!(Add add, Sub sub, Mul mul);

// ------------------------------------------------------------------ cells
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RegionIndex(pub usize);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Cell {
    pub region_index: RegionIndex,
    pub row_offset: usize,
    pub column: Column<Any>,
}
#[derive(Clone, Debug)]
pub struct AssignedCell<V, F: Field> {
    value: Value<V>,
    cell: Cell,
    _marker: PhantomData<F>,
}
impl<V, F: Field> AssignedCell<V, F> {
    pub fn value(&self) -> Value<&V> {
        self.value.as_ref()
    }
    pub fn cell(&self) -> Cell {
        self.cell
    }
}
impl<F: Field> AssignedCell<F, F> {
    pub fn value_field(&self) -> Value<F> {
        self.value
    }
    pub fn evaluate(self) -> Self {
        self
    }
    pub fn copy_advice<A, AR>(
        &self,
        annotation: A,
        region: &mut Region<'_, F>,
        column: Column<Advice>,
        offset: usize,
    ) -> Result<Self, Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let c = region.assign_advice(annotation, column, offset, || self.value)?;
        region.constrain_equal(c.cell(), self.cell())?;
        Ok(c)
    }
}

// ------------------------------------------------------------------ recorder
/// (column type, column index, row)
pub type Loc = (Any, usize, usize);
/// Everything a synthesis wrote.
#[derive(Clone, Debug)]
pub struct Recorder<F: Field> {
    pub advice: BTreeMap<(usize, usize), Value<F>>,
    pub fixed: BTreeMap<(usize, usize), F>,
    pub selectors: BTreeSet<(usize, usize)>,
    pub copies: Vec<(Loc, Loc)>,
    pub constants: Vec<(Loc, F)>,
    pub tables: BTreeMap<(usize, usize), F>,
    /// (name, first row, rows)
    pub regions: Vec<(String, usize, usize)>,
    /// cells written more than once with values that are not syntactically equal
    pub rewrites: usize,
    starts: Vec<usize>,
    next_free: BTreeMap<RegionColumn, usize>,
    equality: BTreeSet<Column<Any>>,
    has_constant_column: bool,
    /// order in which sub-regions of `assign_regions` are filled: 0 forward, 1 backward, 2 threads
    pub order: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum RegionColumn {
    Col(Column<Any>),
    Sel(usize),
}
impl<F: Field> Recorder<F> {
    pub fn new(cs: &ConstraintSystem<F>) -> Self {
        Recorder {
            advice: BTreeMap::new(),
            fixed: BTreeMap::new(),
            selectors: BTreeSet::new(),
            copies: vec![],
            constants: vec![],
            tables: BTreeMap::new(),
            regions: vec![],
            rewrites: 0,
            starts: vec![],
            next_free: BTreeMap::new(),
            equality: cs.equality.clone(),
            has_constant_column: !cs.constants.is_empty(),
            order: 0,
        }
    }
    pub fn loc(&self, c: Cell) -> Loc {
        (*c.column.column_type(), c.column.index(), self.starts[c.region_index.0] + c.row_offset)
    }
    /// number of rows touched by regions
    pub fn rows(&self) -> usize {
        let a = self.advice.keys().map(|k| k.1 + 1).max().unwrap_or(0);
        let b = self.fixed.keys().map(|k| k.1 + 1).max().unwrap_or(0);
        let c = self.selectors.iter().map(|k| k.1 + 1).max().unwrap_or(0);
        a.max(b).max(c)
    }
    fn place(&mut self, name: &str, shape: &Shape) -> usize {
        let start = shape.columns.iter().map(|c| self.next_free.get(c).copied().unwrap_or(0)).max().unwrap_or(0);
        for c in &shape.columns {
            self.next_free.insert(*c, start + shape.rows);
        }
        self.starts.push(start);
        self.regions.push((name.to_string(), start, shape.rows));
        start
    }
}
#[derive(Default, Debug)]
struct Shape {
    columns: BTreeSet<RegionColumn>,
    rows: usize,
}
/// what the second pass of one region produced
#[derive(Debug)]
struct Filled<F: Field> {
    advice: Vec<((usize, usize), Value<F>)>,
    fixed: Vec<((usize, usize), F)>,
    selectors: Vec<(usize, usize)>,
    copies: Vec<(Cell, Cell)>,
    constants: Vec<(Cell, F)>,
}
impl<F: Field> Filled<F> {
    fn new() -> Self {
        Filled { advice: vec![], fixed: vec![], selectors: vec![], copies: vec![], constants: vec![] }
    }
}
#[derive(Debug)]
enum Mode<'r, F: Field> {
    Shape(&'r mut Shape),
    /// absolute first row, permitted rows (sub-regions only)
    Fill { out: &'r mut Filled<F>, start: usize, limit: Option<usize>, equality: &'r BTreeSet<Column<Any>>, constants: bool },
}
#[derive(Debug)]
pub struct Region<'r, F: Field> {
    index: RegionIndex,
    mode: Mode<'r, F>,
}
impl<'r, F: Field> Region<'r, F> {
    fn touch(&mut self, c: RegionColumn, offset: usize) -> Result<(), Error> {
        match &mut self.mode {
            Mode::Shape(s) => {
                s.columns.insert(c);
                s.rows = s.rows.max(offset + 1);
            }
            Mode::Fill { limit: Some(l), .. } => {
                if offset >= *l {
                    return Err(Error::Mock(format!("sub-region writes row {offset} outside its {l} rows")));
                }
            }
            _ => {}
        }
        Ok(())
    }
    pub fn enable_selector<A, AR>(&mut self, _annotation: A, selector: &Selector, offset: usize) -> Result<(), Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        self.touch(RegionColumn::Sel(selector.0), offset)?;
        if let Mode::Fill { out, start, .. } = &mut self.mode {
            out.selectors.push((selector.0, *start + offset));
        }
        Ok(())
    }
    pub fn name_column<A, AR, T>(&mut self, _a: A, _c: T)
    where
        A: Fn() -> AR,
        AR: Into<String>,
        T: Into<Column<Any>>,
    {
    }
    pub fn assign_advice<'v, V, A, AR>(
        &'v mut self,
        _annotation: A,
        column: Column<Advice>,
        offset: usize,
        mut to: V,
    ) -> Result<AssignedCell<F, F>, Error>
    where
        V: FnMut() -> Value<F> + 'v,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let col: Column<Any> = column.into();
        self.touch(RegionColumn::Col(col), offset)?;
        let mut value = Value::unknown();
        if let Mode::Fill { out, start, .. } = &mut self.mode {
            value = to();
            out.advice.push(((column.index(), *start + offset), value));
        }
        Ok(AssignedCell {
            value,
            cell: Cell { region_index: self.index, row_offset: offset, column: col },
            _marker: PhantomData,
        })
    }
    pub fn assign_advice_from_constant<A, AR>(
        &mut self,
        annotation: A,
        column: Column<Advice>,
        offset: usize,
        constant: F,
    ) -> Result<AssignedCell<F, F>, Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let c = self.assign_advice(annotation, column, offset, || Value::known(constant))?;
        self.constrain_constant(c.cell(), constant)?;
        Ok(AssignedCell { value: Value::known(constant), ..c })
    }
    pub fn assign_fixed<'v, V, A, AR>(
        &'v mut self,
        _annotation: A,
        column: Column<Fixed>,
        offset: usize,
        mut to: V,
    ) -> Result<AssignedCell<F, F>, Error>
    where
        V: FnMut() -> Value<F> + 'v,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let col: Column<Any> = column.into();
        self.touch(RegionColumn::Col(col), offset)?;
        let mut value = Value::unknown();
        if let Mode::Fill { out, start, .. } = &mut self.mode {
            value = to();
            match value.into_option() {
                Some(v) => out.fixed.push(((column.index(), *start + offset), v)),
                None => return Err(Error::Synthesis),
            }
        }
        Ok(AssignedCell {
            value,
            cell: Cell { region_index: self.index, row_offset: offset, column: col },
            _marker: PhantomData,
        })
    }
    pub fn constrain_constant(&mut self, cell: Cell, constant: impl Borrow<F>) -> Result<(), Error> {
        if let Mode::Fill { out, equality, constants, .. } = &mut self.mode {
            if !*constants {
                return Err(Error::NotEnoughColumnsForConstants);
            }
            if !equality.contains(&cell.column) {
                return Err(Error::ColumnNotInPermutation(cell.column));
            }
            out.constants.push((cell, *constant.borrow()));
        }
        Ok(())
    }
    pub fn constrain_equal(&mut self, left: Cell, right: Cell) -> Result<(), Error> {
        if let Mode::Fill { out, equality, .. } = &mut self.mode {
            for c in [left, right] {
                if !equality.contains(&c.column) {
                    return Err(Error::ColumnNotInPermutation(c.column));
                }
            }
            out.copies.push((left, right));
        }
        Ok(())
    }
}

#[derive(Debug)]
pub struct Table<'r, F: Field> {
    out: &'r mut BTreeMap<(usize, usize), F>,
}
impl<'r, F: Field> Table<'r, F> {
    pub fn assign_cell<'v, V, A, AR>(
        &'v mut self,
        _annotation: A,
        column: TableColumn,
        offset: usize,
        mut to: V,
    ) -> Result<(), Error>
    where
        V: FnMut() -> Value<F> + 'v,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let v = to().into_option().ok_or(Error::Synthesis)?;
        self.out.insert((column.inner().index(), offset), v);
        Ok(())
    }
}

// ------------------------------------------------------------------ layouter
pub trait Chip<F: Field>: Sized {
    type Config: Debug + Clone;
    type Loaded: Debug + Clone;
    fn config(&self) -> &Self::Config;
    fn loaded(&self) -> &Self::Loaded;
}
pub trait Layouter<F: Field> {
    type Root: Layouter<F>;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>;
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>;
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>;
    fn get_root(&mut self) -> &mut Self::Root;
    fn namespace<NR, N>(&mut self, _name_fn: N) -> NamespacedLayouter<'_, F, Self::Root>
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        NamespacedLayouter(self.get_root(), PhantomData)
    }
}
#[derive(Debug)]
pub struct NamespacedLayouter<'a, F: Field, L: Layouter<F> + 'a>(&'a mut L, PhantomData<F>);
impl<'a, F: Field, L: Layouter<F> + 'a> Layouter<F> for NamespacedLayouter<'a, F, L> {
    type Root = L::Root;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_region(name, assignment)
    }
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_regions(name, assignments)
    }
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_table(name, assignment)
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self.0.get_root()
    }
}
/// The recording layouter.
#[derive(Debug)]
pub struct RecLayouter<F: Field> {
    pub rec: Recorder<F>,
}
impl<F: Field> RecLayouter<F> {
    pub fn new(cs: &ConstraintSystem<F>) -> Self {
        RecLayouter { rec: Recorder::new(cs) }
    }
    fn merge(&mut self, f: Filled<F>) {
        for (k, v) in f.advice {
            self.rec.advice.insert(k, v);
        }
        for (k, v) in f.fixed {
            self.rec.fixed.insert(k, v);
        }
        self.rec.selectors.extend(f.selectors);
        for (a, b) in f.copies {
            let x = (self.rec.loc(a), self.rec.loc(b));
            self.rec.copies.push(x);
        }
        for (c, v) in f.constants {
            let l = self.rec.loc(c);
            self.rec.constants.push((l, v));
        }
    }
}
impl<F: Field> Layouter<F> for RecLayouter<F> {
    type Root = Self;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, mut assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let index = RegionIndex(self.rec.starts.len());
        let mut shape = Shape::default();
        assignment(Region { index, mode: Mode::Shape(&mut shape) })?;
        let name: String = name().into();
        let start = self.rec.place(&name, &shape);
        let mut out = Filled::new();
        let constants = self.rec.has_constant_column;
        let r = assignment(Region {
            index,
            mode: Mode::Fill { out: &mut out, start, limit: None, equality: &self.rec.equality, constants },
        })?;
        self.merge(out);
        Ok(r)
    }
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, mut assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let name: String = name().into();
        let mut places = vec![];
        for a in assignments.iter_mut() {
            let index = RegionIndex(self.rec.starts.len());
            let mut shape = Shape::default();
            a(Region { index, mode: Mode::Shape(&mut shape) })?;
            let start = self.rec.place(&name, &shape);
            places.push((index, start, shape.rows));
        }
        let equality = self.rec.equality.clone();
        let constants = self.rec.has_constant_column;
        let n = assignments.len();
        let mut results: Vec<Option<(Result<AR, Error>, Filled<F>)>> = (0..n).map(|_| None).collect();
        let fill = |a: &mut A, (index, start, rows): (RegionIndex, usize, usize)| {
            let mut out = Filled::new();
            let r = a(Region {
                index,
                mode: Mode::Fill { out: &mut out, start, limit: Some(rows), equality: &equality, constants },
            });
            (r, out)
        };
        if self.rec.order == 2 {
            std::thread::scope(|s| {
                let fill = &fill;
                let hs: Vec<_> =
                    assignments.iter_mut().zip(places.iter().copied()).map(|(a, p)| s.spawn(move || fill(a, p))).collect();
                for (i, h) in hs.into_iter().enumerate() {
                    match h.join() {
                        Ok(x) => results[i] = Some(x),
                        Err(e) => std::panic::resume_unwind(e),
                    }
                }
            });
        } else {
            for k in 0..n {
                let i = if self.rec.order == 1 { n - 1 - k } else { k };
                results[i] = Some(fill(&mut assignments[i], places[i]));
            }
        }
        let mut out = vec![];
        for r in results {
            let (r, f) = r.unwrap();
            out.push(r?);
            self.merge(f);
        }
        Ok(out)
    }
    fn assign_table<A, N, NR>(&mut self, _name: N, mut assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let mut m = BTreeMap::new();
        assignment(Table { out: &mut m })?;
        self.rec.tables.extend(m);
        Ok(())
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}
/// Name kept for circuits that mention it.
#[derive(Debug)]
pub struct SimpleFloorPlanner;
