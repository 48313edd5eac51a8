//! Type descriptions and the simulated registry service.

use crate::sim;
use scale_info::{form::PortableForm, PortableRegistry};
use scale_type_resolver::{
    BitsOrderFormat, BitsStoreFormat, Field, Primitive, ResolvedTypeVisitor, TypeResolver,
    UnhandledKind, Variant,
};
use std::collections::BTreeMap;

pub type Tid = u32;

#[derive(Clone, Debug)]
pub enum Ty {
    Prim(Primitive),
    Compact(Tid),
    Seq(Vec<String>, Tid),
    Arr(Tid, usize),
    Tuple(Vec<Tid>),
    Comp(Vec<String>, Vec<Fld>),
    Var(Vec<String>, Vec<VarDef>),
    Bits(BitsStoreFormat, BitsOrderFormat),
}
#[derive(Clone, Debug)]
pub struct Fld {
    pub name: Option<String>,
    pub tid: Tid,
}
#[derive(Clone, Debug)]
pub struct VarDef {
    pub name: String,
    pub idx: u8,
    pub fields: Vec<Fld>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ResFault {
    Err(String),
    NotFound,
    /// It answers, but not for this kind of type.
    Unhandled,
}

#[derive(Clone, Debug, Default)]
pub struct Reg {
    pub tys: Vec<Ty>,
    /// About how many nodes a value of each type has.
    pub weight: Vec<u64>,
    /// Some type contains itself.
    pub rec: bool,
    /// Recursive targets whose source is being made.
    pub open: Vec<(&'static str, Tid)>,
}
impl Reg {
    /// Do values of this type occupy no bytes?
    pub fn no_bytes(&self, t: Tid, d: u32) -> bool {
        d < 12
            && match self.get(t) {
                Some(Ty::Tuple(v)) => v.iter().all(|t| self.no_bytes(*t, d + 1)),
                Some(Ty::Comp(_, f)) => f.iter().all(|f| self.no_bytes(f.tid, d + 1)),
                Some(Ty::Arr(i, n)) => *n == 0 || self.no_bytes(*i, d + 1),
                _ => false,
            }
    }
    pub fn kind(&self, t: Tid) -> UnhandledKind {
        match self.get(t) {
            None => UnhandledKind::NotFound,
            Some(Ty::Prim(_)) => UnhandledKind::Primitive,
            Some(Ty::Compact(_)) => UnhandledKind::Compact,
            Some(Ty::Seq(..)) => UnhandledKind::Sequence,
            Some(Ty::Arr(..)) => UnhandledKind::Array,
            Some(Ty::Tuple(_)) => UnhandledKind::Tuple,
            Some(Ty::Comp(..)) => UnhandledKind::Composite,
            Some(Ty::Var(..)) => UnhandledKind::Variant,
            Some(Ty::Bits(..)) => UnhandledKind::BitSequence,
        }
    }
    /// Type 0 is valid but never used: a decoder that loses a type id and falls back on
    /// `Default::default()` decodes a u128 instead of failing.
    pub fn new() -> Reg {
        Reg { tys: vec![Ty::Prim(Primitive::U128)], weight: vec![1], rec: false, open: vec![] }
    }
    pub fn add(&mut self, t: Ty) -> Tid {
        let of = |t: &Tid| self.weight.get(*t as usize).copied().unwrap_or(1);
        let all = |f: &[Fld]| f.iter().map(|f| of(&f.tid)).sum::<u64>();
        let w = match &t {
            Ty::Prim(_) | Ty::Bits(..) => 0,
            Ty::Compact(t) => of(t),
            Ty::Seq(_, t) => of(t).saturating_mul(3),
            Ty::Arr(t, n) => of(t).saturating_mul(*n as u64),
            Ty::Tuple(v) => v.iter().map(of).sum(),
            Ty::Comp(_, f) => all(f),
            Ty::Var(_, v) => v.iter().map(|v| all(&v.fields)).max().unwrap_or(0),
        };
        self.weight.push(w.saturating_add(1).min(1 << 32));
        self.tys.push(t);
        (self.tys.len() - 1) as Tid
    }
    pub fn get(&self, t: Tid) -> Option<&Ty> {
        self.tys.get(t as usize)
    }
    pub fn show(&self, t: Tid) -> String {
        self.show_d(t, 0, &std::cell::Cell::new(300))
    }
    fn show_d(&self, t: Tid, d: usize, left: &std::cell::Cell<u32>) -> String {
        if d > 12 || left.get() == 0 {
            return "..".into();
        }
        left.set(left.get() - 1);
        let fl = |f: &[Fld]| {
            f.iter()
                .take(24)
                .map(|f| {
                    format!(
                        "{}{}",
                        f.name.as_ref().map(|n| format!("{n}: ")).unwrap_or_default(),
                        self.show_d(f.tid, d + 1, left)
                    )
                })
                .collect::<Vec<_>>()
                .join(", ")
        };
        match self.get(t) {
            None => format!("?{t}"),
            Some(Ty::Prim(p)) => format!("{p:?}").to_lowercase(),
            Some(Ty::Compact(i)) => format!("Compact<{}>", self.show_d(*i, d + 1, left)),
            Some(Ty::Seq(_, i)) => format!("[{}]", self.show_d(*i, d + 1, left)),
            Some(Ty::Arr(i, n)) => format!("[{}; {n}]", self.show_d(*i, d + 1, left)),
            Some(Ty::Tuple(v)) => format!(
                "({})",
                v.iter().map(|x| self.show_d(*x, d + 1, left) + ",").collect::<Vec<_>>().join(" ")
            ),
            Some(Ty::Comp(p, f)) => {
                format!("{}{{{}}}", p.last().cloned().unwrap_or_default(), fl(f))
            }
            Some(Ty::Var(_, v)) => format!(
                "enum({})",
                v.iter()
                    .take(8)
                    .map(|v| format!("{}={}{{{}}}", v.name, v.idx, fl(&v.fields)))
                    .collect::<Vec<_>>()
                    .join(" | ")
            ),
            Some(Ty::Bits(s, o)) => format!("Bits<{s:?},{o:?}>"),
        }
    }
    /// Build the equivalent real `scale_info::PortableRegistry`.
    pub fn portable(&self) -> PortableRegistry {
        use scale_info::{
            interner::UntrackedSymbol, Field as SField, PortableRegistryBuilder, Type, TypeDef,
            TypeDefArray, TypeDefBitSequence, TypeDefCompact, TypeDefComposite, TypeDefPrimitive,
            TypeDefSequence, TypeDefTuple, TypeDefVariant, Variant as SVariant,
        };
        let mut b = PortableRegistryBuilder::new();
        let n = self.tys.len() as u32;
        // ids n.. hold the store/order types of bit sequences.
        let (u8_, u16_, u32_, u64_, lsb, msb) = (n, n + 1, n + 2, n + 3, n + 4, n + 5);
        let sym = |t: u32| UntrackedSymbol::<std::any::TypeId>::from(t);
        let path = |p: &[String]| scale_info::Path::<PortableForm> { segments: p.to_vec() };
        let fields = |f: &[Fld]| {
            f.iter()
                .map(|f| SField::<PortableForm> {
                    name: f.name.clone(),
                    ty: sym(f.tid),
                    type_name: None,
                    docs: vec![],
                })
                .collect::<Vec<_>>()
        };
        let prim = |p: &Primitive| match p {
            Primitive::Bool => TypeDefPrimitive::Bool,
            Primitive::Char => TypeDefPrimitive::Char,
            Primitive::Str => TypeDefPrimitive::Str,
            Primitive::U8 => TypeDefPrimitive::U8,
            Primitive::U16 => TypeDefPrimitive::U16,
            Primitive::U32 => TypeDefPrimitive::U32,
            Primitive::U64 => TypeDefPrimitive::U64,
            Primitive::U128 => TypeDefPrimitive::U128,
            Primitive::U256 => TypeDefPrimitive::U256,
            Primitive::I8 => TypeDefPrimitive::I8,
            Primitive::I16 => TypeDefPrimitive::I16,
            Primitive::I32 => TypeDefPrimitive::I32,
            Primitive::I64 => TypeDefPrimitive::I64,
            Primitive::I128 => TypeDefPrimitive::I128,
            Primitive::I256 => TypeDefPrimitive::I256,
        };
        let mk = |p: Vec<String>, d: TypeDef<PortableForm>| Type::<PortableForm> {
            path: path(&p),
            type_params: vec![],
            type_def: d,
            docs: vec![],
        };
        for t in &self.tys {
            let ty = match t {
                Ty::Prim(p) => mk(vec![], TypeDef::Primitive(prim(p))),
                Ty::Compact(i) => {
                    mk(vec![], TypeDef::Compact(TypeDefCompact { type_param: sym(*i) }))
                }
                Ty::Seq(p, i) => {
                    mk(p.clone(), TypeDef::Sequence(TypeDefSequence { type_param: sym(*i) }))
                }
                Ty::Arr(i, l) => mk(
                    vec![],
                    TypeDef::Array(TypeDefArray { len: *l as u32, type_param: sym(*i) }),
                ),
                Ty::Tuple(v) => mk(
                    vec![],
                    TypeDef::Tuple(TypeDefTuple { fields: v.iter().map(|x| sym(*x)).collect() }),
                ),
                Ty::Comp(p, f) => {
                    mk(p.clone(), TypeDef::Composite(TypeDefComposite { fields: fields(f) }))
                }
                Ty::Var(p, v) => mk(
                    p.clone(),
                    TypeDef::Variant(TypeDefVariant {
                        variants: v
                            .iter()
                            .map(|v| SVariant::<PortableForm> {
                                name: v.name.clone(),
                                fields: fields(&v.fields),
                                index: v.idx,
                                docs: vec![],
                            })
                            .collect(),
                    }),
                ),
                Ty::Bits(s, o) => mk(
                    vec![],
                    TypeDef::BitSequence(TypeDefBitSequence {
                        bit_store_type: sym(match s {
                            BitsStoreFormat::U8 => u8_,
                            BitsStoreFormat::U16 => u16_,
                            BitsStoreFormat::U32 => u32_,
                            BitsStoreFormat::U64 => u64_,
                        }),
                        bit_order_type: sym(match o {
                            BitsOrderFormat::Lsb0 => lsb,
                            BitsOrderFormat::Msb0 => msb,
                        }),
                    }),
                ),
            };
            register(&mut b, ty);
        }
        for p in [Primitive::U8, Primitive::U16, Primitive::U32, Primitive::U64] {
            let t = mk(vec![format!("store{p:?}")], TypeDef::Primitive(prim(&p)));
            register(&mut b, t);
        }
        for o in ["Lsb0", "Msb0"] {
            let t = mk(
                vec!["bitvec".into(), o.into()],
                TypeDef::Composite(TypeDefComposite { fields: vec![] }),
            );
            register(&mut b, t);
        }
        b.finish()
    }
}
/// The builder interns equal types; make each one distinct so that ids stay ours.
fn register(
    b: &mut scale_info::PortableRegistryBuilder,
    mut t: scale_info::Type<PortableForm>,
) {
    let want = b.next_type_id();
    t.docs = vec![format!("{want}")];
    let got = b.register_type(t);
    assert_eq!(want, got);
}

/// The registry service as the decoder sees it.
pub struct SimResolver {
    pub reg: Reg,
    pub portable: Option<PortableRegistry>,
    pub down: BTreeMap<Tid, ResFault>,
}
impl SimResolver {
    pub fn new(reg: Reg) -> SimResolver {
        if reg.tys.iter().any(|t| matches!(t, Ty::Seq(_, i) if reg.no_bytes(*i, 0))) {
            sim::with(|s| s.zero_list = true);
        }
        SimResolver { reg, portable: None, down: BTreeMap::new() }
    }
    pub fn use_portable(mut self) -> SimResolver {
        self.portable = Some(self.reg.portable());
        self
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct ResErr(pub String);
impl std::fmt::Display for ResErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub const TRANSIENT_MSG: &str = "registry connection lost (transient)";

impl TypeResolver for SimResolver {
    type TypeId = Tid;
    type Error = ResErr;

    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = Tid>>(
        &'this self,
        type_id: Tid,
        visitor: V,
    ) -> Result<V::Value, ResErr> {
        sim::seam();
        let k = sim::with(|s| {
            s.resolves += 1;
            s.resolves
        });
        sim::ev("lookup", type_id as u64, 0);
        if let Some((at, kind)) = sim::with(|s| s.transient_at) {
            if at == k {
                sim::with(|s| s.transient_fired = true);
                match kind {
                    0 => {
                        sim::fault("lookup_transient_error");
                        return Err(ResErr(TRANSIENT_MSG.into()));
                    }
                    1 => {
                        sim::fault("lookup_transient_not_found");
                        return Ok(visitor.visit_not_found());
                    }
                    _ => {
                        sim::fault("lookup_transient_unhandled");
                        return Ok(visitor.visit_unhandled(self.reg.kind(type_id)));
                    }
                }
            }
        }
        if let Some(f) = self.down.get(&type_id) {
            match f {
                ResFault::Err(m) => {
                    sim::fault("lookup_error");
                    return Err(ResErr(m.clone()));
                }
                ResFault::NotFound => {
                    sim::fault("lookup_not_found");
                    return Ok(visitor.visit_not_found());
                }
                ResFault::Unhandled => {
                    sim::fault("lookup_unhandled");
                    return Ok(visitor.visit_unhandled(self.reg.kind(type_id)));
                }
            }
        }
        if let Some(p) = &self.portable {
            return p.resolve_type(type_id, visitor).map_err(|e| ResErr(e.to_string()));
        }
        fn fs<'a>(f: &'a [Fld]) -> impl ExactSizeIterator<Item = Field<'a, Tid>> {
            f.iter().map(|f| Field { name: f.name.as_deref(), id: f.tid })
        }
        let Some(t) = self.reg.get(type_id) else { return Ok(visitor.visit_not_found()) };
        Ok(match t {
            Ty::Prim(p) => visitor.visit_primitive(*p),
            Ty::Compact(i) => visitor.visit_compact(*i),
            Ty::Seq(p, i) => visitor.visit_sequence(p.iter().map(|s| s.as_str()), *i),
            Ty::Arr(i, n) => visitor.visit_array(*i, *n),
            Ty::Tuple(v) => visitor.visit_tuple(v.iter().copied()),
            Ty::Comp(p, f) => visitor.visit_composite(p.iter().map(|s| s.as_str()), fs(f)),
            Ty::Var(p, v) => visitor.visit_variant(
                p.iter().map(|s| s.as_str()),
                v.iter().map(|v| Variant { index: v.idx, name: v.name.as_str(), fields: fs(&v.fields) }),
            ),
            Ty::Bits(s, o) => visitor.visit_bit_sequence(*s, *o),
        })
    }
}
