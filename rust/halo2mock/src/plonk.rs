use crate::poly::Rotation;
use ff::Field;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::iter::{Product, Sum};
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    Synthesis,
    NotEnoughRowsAvailable,
    ColumnNotInPermutation(Column<Any>),
    NotEnoughColumnsForConstants,
    Mock(String),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

pub trait ColumnType: 'static + Sized + Copy + Debug + PartialEq + Eq + Into<Any> {}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Advice;
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fixed;
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Instance;
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Any {
    Advice,
    Fixed,
    Instance,
}
impl ColumnType for Advice {}
impl ColumnType for Fixed {}
impl ColumnType for Instance {}
impl ColumnType for Any {}
impl From<Advice> for Any {
    fn from(_: Advice) -> Any {
        Any::Advice
    }
}
impl From<Fixed> for Any {
    fn from(_: Fixed) -> Any {
        Any::Fixed
    }
}
impl From<Instance> for Any {
    fn from(_: Instance) -> Any {
        Any::Instance
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Column<C> {
    pub(crate) index: usize,
    pub(crate) column_type: C,
}
impl<C: ColumnType> Column<C> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn column_type(&self) -> &C {
        &self.column_type
    }
}
macro_rules! any_from {
    ($($t:ident),*) => {$(
        impl From<Column<$t>> for Column<Any> {
            fn from(c: Column<$t>) -> Column<Any> {
                Column { index: c.index, column_type: Any::$t }
            }
        }
        impl TryFrom<Column<Any>> for Column<$t> {
            type Error = &'static str;
            fn try_from(c: Column<Any>) -> Result<Self, Self::Error> {
                match c.column_type {
                    Any::$t => Ok(Column { index: c.index, column_type: $t }),
                    _ => Err("wrong column type"),
                }
            }
        }
    )*};
}
any_from!(Advice, Fixed, Instance);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Selector(pub usize, pub(crate) bool);
impl Selector {
    pub fn enable<F: Field>(&self, region: &mut crate::circuit::Region<'_, F>, offset: usize) -> Result<(), Error> {
        region.enable_selector(|| "", self, offset)
    }
    pub fn index(&self) -> usize {
        self.0
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TableColumn {
    pub(crate) inner: Column<Fixed>,
}
impl TableColumn {
    pub fn inner(&self) -> Column<Fixed> {
        self.inner
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expression<F> {
    Constant(F),
    Selector(Selector),
    Fixed(Column<Fixed>, Rotation),
    Advice(Column<Advice>, Rotation),
    Instance(Column<Instance>, Rotation),
    Negated(Box<Expression<F>>),
    Sum(Box<Expression<F>>, Box<Expression<F>>),
    Product(Box<Expression<F>>, Box<Expression<F>>),
    Scaled(Box<Expression<F>>, F),
}
impl<F: Field> Expression<F> {
    #[allow(clippy::too_many_arguments)]
    pub fn eval<T>(
        &self,
        constant: &dyn Fn(F) -> T,
        selector: &dyn Fn(Selector) -> T,
        fixed: &dyn Fn(Column<Fixed>, Rotation) -> T,
        advice: &dyn Fn(Column<Advice>, Rotation) -> T,
        neg: &dyn Fn(T) -> T,
        sum: &dyn Fn(T, T) -> T,
        prod: &dyn Fn(T, T) -> T,
    ) -> T {
        macro_rules! go {
            ($e:expr) => {
                $e.eval(constant, selector, fixed, advice, neg, sum, prod)
            };
        }
        match self {
            Expression::Constant(c) => constant(*c),
            Expression::Selector(s) => selector(*s),
            Expression::Fixed(c, r) => fixed(*c, *r),
            Expression::Advice(c, r) => advice(*c, *r),
            Expression::Instance(..) => panic!("SYM-UNSUPPORTED: instance query"),
            Expression::Negated(a) => neg(go!(a)),
            Expression::Sum(a, b) => sum(go!(a), go!(b)),
            Expression::Product(a, b) => prod(go!(a), go!(b)),
            Expression::Scaled(a, f) => prod(go!(a), constant(*f)),
        }
    }
    /// every cell query: (is_advice, column, rotation)
    pub fn queries(&self, out: &mut BTreeSet<(bool, usize, i32)>) {
        match self {
            Expression::Fixed(c, r) => {
                out.insert((false, c.index, r.0));
            }
            Expression::Advice(c, r) => {
                out.insert((true, c.index, r.0));
            }
            Expression::Negated(a) | Expression::Scaled(a, _) => a.queries(out),
            Expression::Sum(a, b) | Expression::Product(a, b) => {
                a.queries(out);
                b.queries(out);
            }
            _ => {}
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            Expression::Constant(_) => 0,
            Expression::Negated(a) | Expression::Scaled(a, _) => a.degree(),
            Expression::Sum(a, b) => a.degree().max(b.degree()),
            Expression::Product(a, b) => a.degree() + b.degree(),
            _ => 1,
        }
    }
    pub fn square(self) -> Self {
        self.clone() * self
    }
    fn contains_simple_selector(&self) -> bool {
        match self {
            Expression::Selector(s) => s.1,
            Expression::Negated(a) | Expression::Scaled(a, _) => a.contains_simple_selector(),
            Expression::Sum(a, b) | Expression::Product(a, b) => {
                a.contains_simple_selector() || b.contains_simple_selector()
            }
            _ => false,
        }
    }
}
impl<F: Field> Neg for Expression<F> {
    type Output = Expression<F>;
    fn neg(self) -> Self {
        Expression::Negated(Box::new(self))
    }
}
impl<F: Field> Add for Expression<F> {
    type Output = Expression<F>;
    fn add(self, r: Expression<F>) -> Self {
        Expression::Sum(Box::new(self), Box::new(r))
    }
}
impl<F: Field> Sub for Expression<F> {
    type Output = Expression<F>;
    fn sub(self, r: Expression<F>) -> Self {
        Expression::Sum(Box::new(self), Box::new(-r))
    }
}
impl<F: Field> Mul for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, r: Expression<F>) -> Self {
        Expression::Product(Box::new(self), Box::new(r))
    }
}
impl<F: Field> Mul<F> for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, r: F) -> Self {
        Expression::Scaled(Box::new(self), r)
    }
}
impl<F: Field> Sum<Self> for Expression<F> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.reduce(|a, b| a + b).unwrap_or(Expression::Constant(F::ZERO))
    }
}
impl<F: Field> Product<Self> for Expression<F> {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.reduce(|a, b| a * b).unwrap_or(Expression::Constant(F::ONE))
    }
}

#[derive(Debug)]
pub struct Constraint<F: Field> {
    pub name: String,
    pub poly: Expression<F>,
}
impl<F: Field> From<Expression<F>> for Constraint<F> {
    fn from(poly: Expression<F>) -> Self {
        Constraint { name: "".into(), poly }
    }
}
impl<F: Field, S: AsRef<str>> From<(S, Expression<F>)> for Constraint<F> {
    fn from((n, poly): (S, Expression<F>)) -> Self {
        Constraint { name: n.as_ref().to_string(), poly }
    }
}
impl<F: Field> From<Expression<F>> for Vec<Constraint<F>> {
    fn from(poly: Expression<F>) -> Self {
        vec![poly.into()]
    }
}
#[derive(Debug)]
pub struct Constraints<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> {
    selector: Expression<F>,
    constraints: Iter,
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> Constraints<F, C, Iter> {
    pub fn with_selector(selector: Expression<F>, constraints: Iter) -> Self {
        Constraints { selector, constraints }
    }
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> IntoIterator for Constraints<F, C, Iter> {
    type Item = Constraint<F>;
    type IntoIter = std::vec::IntoIter<Constraint<F>>;
    fn into_iter(self) -> Self::IntoIter {
        let s = self.selector;
        self.constraints
            .into_iter()
            .map(|c| {
                let c: Constraint<F> = c.into();
                Constraint { name: c.name, poly: s.clone() * c.poly }
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
}

#[derive(Debug, Clone)]
pub struct Gate<F: Field> {
    pub name: String,
    pub polys: Vec<Expression<F>>,
}
#[derive(Debug, Clone)]
pub struct Lookup<F: Field> {
    pub name: String,
    pub pairs: Vec<(Expression<F>, TableColumn)>,
}
#[derive(Debug, Clone)]
pub struct ConstraintSystem<F: Field> {
    pub num_advice: usize,
    pub num_fixed: usize,
    pub num_instance: usize,
    pub num_selectors: usize,
    pub gates: Vec<Gate<F>>,
    pub lookups: Vec<Lookup<F>>,
    pub equality: BTreeSet<Column<Any>>,
    pub constants: Vec<Column<Fixed>>,
}
impl<F: Field> Default for ConstraintSystem<F> {
    fn default() -> Self {
        ConstraintSystem {
            num_advice: 0,
            num_fixed: 0,
            num_instance: 0,
            num_selectors: 0,
            gates: vec![],
            lookups: vec![],
            equality: BTreeSet::new(),
            constants: vec![],
        }
    }
}
impl<F: Field> ConstraintSystem<F> {
    pub fn advice_column(&mut self) -> Column<Advice> {
        self.num_advice += 1;
        Column { index: self.num_advice - 1, column_type: Advice }
    }
    pub fn fixed_column(&mut self) -> Column<Fixed> {
        self.num_fixed += 1;
        Column { index: self.num_fixed - 1, column_type: Fixed }
    }
    pub fn instance_column(&mut self) -> Column<Instance> {
        self.num_instance += 1;
        Column { index: self.num_instance - 1, column_type: Instance }
    }
    pub fn lookup_table_column(&mut self) -> TableColumn {
        TableColumn { inner: self.fixed_column() }
    }
    pub fn selector(&mut self) -> Selector {
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, true)
    }
    pub fn complex_selector(&mut self) -> Selector {
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, false)
    }
    pub fn enable_equality<C: Into<Column<Any>>>(&mut self, column: C) {
        self.equality.insert(column.into());
    }
    pub fn enable_constant(&mut self, column: Column<Fixed>) {
        if !self.constants.contains(&column) {
            self.constants.push(column);
            self.enable_equality(column);
        }
    }
    pub fn create_gate<C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>>(
        &mut self,
        name: &'static str,
        constraints: impl FnOnce(&mut VirtualCells<'_, F>) -> Iter,
    ) {
        let mut cells = VirtualCells { meta: self };
        let polys: Vec<Expression<F>> =
            constraints(&mut cells).into_iter().map(|c| Into::<Constraint<F>>::into(c).poly).collect();
        assert!(!polys.is_empty(), "Gates must contain at least one constraint.");
        self.gates.push(Gate { name: name.into(), polys });
    }
    pub fn lookup(
        &mut self,
        name: &'static str,
        table_map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, TableColumn)>,
    ) -> usize {
        let mut cells = VirtualCells { meta: self };
        let pairs = table_map(&mut cells);
        for (e, _) in &pairs {
            assert!(!e.contains_simple_selector(), "expression containing simple selector supplied to lookup argument");
        }
        self.lookups.push(Lookup { name: name.into(), pairs });
        self.lookups.len() - 1
    }
    pub fn degree(&self) -> usize {
        self.gates.iter().flat_map(|g| g.polys.iter()).map(|p| p.degree()).max().unwrap_or(0)
    }
}
#[derive(Debug)]
pub struct VirtualCells<'a, F: Field> {
    #[allow(dead_code)]
    meta: &'a mut ConstraintSystem<F>,
}
impl<'a, F: Field> VirtualCells<'a, F> {
    pub fn query_selector(&mut self, s: Selector) -> Expression<F> {
        Expression::Selector(s)
    }
    pub fn query_fixed(&mut self, c: Column<Fixed>, at: Rotation) -> Expression<F> {
        Expression::Fixed(c, at)
    }
    pub fn query_advice(&mut self, c: Column<Advice>, at: Rotation) -> Expression<F> {
        Expression::Advice(c, at)
    }
    pub fn query_instance(&mut self, c: Column<Instance>, at: Rotation) -> Expression<F> {
        Expression::Instance(c, at)
    }
    pub fn query_any<C: Into<Column<Any>>>(&mut self, c: C, at: Rotation) -> Expression<F> {
        let c: Column<Any> = c.into();
        match c.column_type {
            Any::Advice => Expression::Advice(Column { index: c.index, column_type: Advice }, at),
            Any::Fixed => Expression::Fixed(Column { index: c.index, column_type: Fixed }, at),
            Any::Instance => Expression::Instance(Column { index: c.index, column_type: Instance }, at),
        }
    }
}
/// A circuit, as in the original.
pub trait Circuit<F: Field> {
    type Config: Clone;
    type FloorPlanner;
    fn without_witnesses(&self) -> Self;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config;
    fn synthesize(&self, config: Self::Config, layouter: impl crate::circuit::Layouter<F>) -> Result<(), Error>;
}
/// Rational values are not used by the code under test; kept for signatures.
pub type Assigned<F> = F;
