// ---------------------------------------------------------------- src/network/graph: types
@@item src/network/graph/indexing.rs :: NodeIdx [derive=Copy, Clone, Debug, PartialEq, Eq, Structural]
@@item src/network/graph/indexing.rs :: EdgeIdx [derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/network/graph/indexing.rs :: MetricIdx [derive=Copy, Clone, PartialEq, Eq, Structural]
impl std::ops::Deref for NodeIdx { type Target = usize;
@@fn src/network/graph/indexing.rs :: NodeIdx as Deref::deref [nopub; id=NodeIdx::deref]
%spec
    ensures *r == self.0,
@@end
}
impl std::ops::Deref for EdgeIdx { type Target = usize;
@@fn src/network/graph/indexing.rs :: EdgeIdx as Deref::deref [nopub; id=EdgeIdx::deref]
%spec
    ensures *r == self.0,
@@end
}
impl std::ops::Deref for MetricIdx { type Target = usize;
@@fn src/network/graph/indexing.rs :: MetricIdx as Deref::deref [nopub; id=MetricIdx::deref]
%spec
    ensures *r == self.0,
@@end
}
#[derive(Copy, Clone)]
pub struct Coordinate { pub lat: F64, pub lon: F64 }   // kissunits::geo::Coordinate
@@item src/network/graph/mod.rs :: Graph [map=Config>ParsingConfig]
@@item src/network/graph/mod.rs :: Node
@@item src/network/graph/mod.rs :: HalfEdge [derive=Copy, Clone]
@@item src/network/graph/mod.rs :: NodeAccessor
@@item src/network/graph/mod.rs :: EdgeAccessor
@@item src/network/graph/mod.rs :: MetricAccessor [map=Config>ParsingConfig]
