// ---------------------------------------------------------------- what the document says: Raw, then Proto, then the configuration
@@item src/configs/parsing/vehicles.rs :: ProtoConfig [as=ProtoVehiclesConfig]
@@item src/configs/parsing/vehicles.rs :: RawConfig [as=RawVehiclesConfig]
@@item src/defaults.rs :: CATEGORY [mod=parsing::vehicles]
@@item src/defaults.rs :: ARE_DRIVERS_PICKY [mod=parsing::vehicles]
@@item src/configs/parsing/edges/metrics.rs :: ProtoUnitInfo [as=ProtoUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/edges/metrics.rs :: RawUnitInfo [as=RawUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
pub open spec fn u_pc(v: ProtoUnitInfo) -> UnitInfo { match v { ProtoUnitInfo::Meters => UnitInfo::Meters, ProtoUnitInfo::Kilometers => UnitInfo::Kilometers, ProtoUnitInfo::Seconds => UnitInfo::Seconds, ProtoUnitInfo::Minutes => UnitInfo::Minutes, ProtoUnitInfo::Hours => UnitInfo::Hours, ProtoUnitInfo::KilometersPerHour => UnitInfo::KilometersPerHour, ProtoUnitInfo::LaneCount => UnitInfo::LaneCount, ProtoUnitInfo::F64 => UnitInfo::F64, } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoUnitInfo> for UnitInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoUnitInfo) -> UnitInfo { u_pc(v) } }
impl From<ProtoUnitInfo> for UnitInfo {
@@fn src/configs/parsing/edges/metrics.rs :: UnitInfo as From<ProtoUnitInfo>::from [nopub; id=UnitInfo::fromProtoUnitInfo; map=UnitInfo>UnitInfo,ProtoUnitInfo>ProtoUnitInfo]
@@end
}
pub open spec fn u_rp(v: RawUnitInfo) -> ProtoUnitInfo { match v { RawUnitInfo::Meters => ProtoUnitInfo::Meters, RawUnitInfo::Kilometers => ProtoUnitInfo::Kilometers, RawUnitInfo::Seconds => ProtoUnitInfo::Seconds, RawUnitInfo::Minutes => ProtoUnitInfo::Minutes, RawUnitInfo::Hours => ProtoUnitInfo::Hours, RawUnitInfo::KilometersPerHour => ProtoUnitInfo::KilometersPerHour, RawUnitInfo::LaneCount => ProtoUnitInfo::LaneCount, RawUnitInfo::F64 => ProtoUnitInfo::F64, } }
impl vstd::std_specs::convert::FromSpecImpl<RawUnitInfo> for ProtoUnitInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawUnitInfo) -> ProtoUnitInfo { u_rp(v) } }
impl From<RawUnitInfo> for ProtoUnitInfo {
@@fn src/configs/parsing/edges/metrics.rs :: ProtoUnitInfo as From<RawUnitInfo>::from [nopub; id=ProtoUnitInfo::fromRawUnitInfo; map=ProtoUnitInfo>ProtoUnitInfo,RawUnitInfo>RawUnitInfo]
@@end
}
@@item src/configs/parsing/edges/mod.rs :: ProtoMetaInfo [as=ProtoEdgeMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/edges/mod.rs :: RawMetaInfo [as=RawEdgeMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
pub open spec fn ei_pc(v: ProtoEdgeMetaInfo) -> EdgeMetaInfo { match v { ProtoEdgeMetaInfo::EdgeId => EdgeMetaInfo::EdgeId, ProtoEdgeMetaInfo::SrcId => EdgeMetaInfo::SrcId, ProtoEdgeMetaInfo::DstId => EdgeMetaInfo::DstId, ProtoEdgeMetaInfo::ShortcutIdx0 => EdgeMetaInfo::ShortcutIdx0, ProtoEdgeMetaInfo::ShortcutIdx1 => EdgeMetaInfo::ShortcutIdx1, } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoEdgeMetaInfo> for EdgeMetaInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoEdgeMetaInfo) -> EdgeMetaInfo { ei_pc(v) } }
impl From<ProtoEdgeMetaInfo> for EdgeMetaInfo {
@@fn src/configs/parsing/edges/mod.rs :: MetaInfo as From<ProtoMetaInfo>::from [nopub; id=EdgeMetaInfo::fromProtoEdgeMetaInfo; map=MetaInfo>EdgeMetaInfo,ProtoMetaInfo>ProtoEdgeMetaInfo]
@@end
}
pub open spec fn ei_rp(v: RawEdgeMetaInfo) -> ProtoEdgeMetaInfo { match v { RawEdgeMetaInfo::EdgeId => ProtoEdgeMetaInfo::EdgeId, RawEdgeMetaInfo::SrcId => ProtoEdgeMetaInfo::SrcId, RawEdgeMetaInfo::DstId => ProtoEdgeMetaInfo::DstId, RawEdgeMetaInfo::ShortcutIdx0 => ProtoEdgeMetaInfo::ShortcutIdx0, RawEdgeMetaInfo::ShortcutIdx1 => ProtoEdgeMetaInfo::ShortcutIdx1, } }
impl vstd::std_specs::convert::FromSpecImpl<RawEdgeMetaInfo> for ProtoEdgeMetaInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawEdgeMetaInfo) -> ProtoEdgeMetaInfo { ei_rp(v) } }
impl From<RawEdgeMetaInfo> for ProtoEdgeMetaInfo {
@@fn src/configs/parsing/edges/mod.rs :: ProtoMetaInfo as From<RawMetaInfo>::from [nopub; id=ProtoEdgeMetaInfo::fromRawEdgeMetaInfo; map=ProtoMetaInfo>ProtoEdgeMetaInfo,RawMetaInfo>RawEdgeMetaInfo]
@@end
}
@@item src/configs/parsing/edges/mod.rs :: RawCategory [as=RawEdgeCategory; map=metrics::RawUnitInfo>RawUnitInfo,RawMetaInfo>RawEdgeMetaInfo]
@@item src/configs/parsing/edges/mod.rs :: ProtoCategory [as=ProtoEdgeCategory; map=metrics::ProtoUnitInfo>ProtoUnitInfo,ProtoMetaInfo>ProtoEdgeMetaInfo]
@@item src/configs/parsing/edges/mod.rs :: RawConfig [as=RawEdgesConfig; map=RawCategory>RawEdgeCategory]
@@item src/configs/parsing/edges/mod.rs :: ProtoConfig [as=ProtoEdgesConfig; map=ProtoCategory>ProtoEdgeCategory]
pub open spec fn e_pc(v: ProtoEdgeCategory) -> EdgeCategory { match v { ProtoEdgeCategory::Meta { info, id } => EdgeCategory::Meta { info: ei_pc(info), id }, ProtoEdgeCategory::Metric { unit, id } => EdgeCategory::Metric { unit: u_pc(unit), id }, ProtoEdgeCategory::Ignored => EdgeCategory::Ignored } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoEdgeCategory> for EdgeCategory { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoEdgeCategory) -> EdgeCategory { e_pc(v) } }
impl From<ProtoEdgeCategory> for EdgeCategory {
@@fn src/configs/parsing/edges/mod.rs :: Category as From<ProtoCategory>::from [nopub; id=EdgeCategory::fromProtoEdgeCategory; map=Category>EdgeCategory,ProtoCategory>ProtoEdgeCategory,MetaInfo>EdgeMetaInfo,metrics::UnitInfo>UnitInfo]
@@end
}
pub open spec fn e_rp(v: RawEdgeCategory) -> ProtoEdgeCategory { match v { RawEdgeCategory::Meta { info, id } => ProtoEdgeCategory::Meta { info: ei_rp(info), id }, RawEdgeCategory::Metric { unit, id } => ProtoEdgeCategory::Metric { unit: u_rp(unit), id }, RawEdgeCategory::Ignored => ProtoEdgeCategory::Ignored } }
impl vstd::std_specs::convert::FromSpecImpl<RawEdgeCategory> for ProtoEdgeCategory { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawEdgeCategory) -> ProtoEdgeCategory { e_rp(v) } }
impl From<RawEdgeCategory> for ProtoEdgeCategory {
@@fn src/configs/parsing/edges/mod.rs :: ProtoCategory as From<RawCategory>::from [nopub; id=ProtoEdgeCategory::fromRawEdgeCategory; map=RawCategory>RawEdgeCategory,ProtoCategory>ProtoEdgeCategory,ProtoMetaInfo>ProtoEdgeMetaInfo,metrics::ProtoUnitInfo>ProtoUnitInfo]
@@end
}
@@item src/configs/parsing/nodes/mod.rs :: ProtoMetaInfo [as=ProtoNodeMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/nodes/mod.rs :: RawMetaInfo [as=RawNodeMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
pub open spec fn ni_pc(v: ProtoNodeMetaInfo) -> NodeMetaInfo { match v { ProtoNodeMetaInfo::NodeId => NodeMetaInfo::NodeId, ProtoNodeMetaInfo::CHLevel => NodeMetaInfo::CHLevel, } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoNodeMetaInfo> for NodeMetaInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoNodeMetaInfo) -> NodeMetaInfo { ni_pc(v) } }
impl From<ProtoNodeMetaInfo> for NodeMetaInfo {
@@fn src/configs/parsing/nodes/mod.rs :: MetaInfo as From<ProtoMetaInfo>::from [nopub; id=NodeMetaInfo::fromProtoNodeMetaInfo; map=MetaInfo>NodeMetaInfo,ProtoMetaInfo>ProtoNodeMetaInfo]
@@end
}
pub open spec fn ni_rp(v: RawNodeMetaInfo) -> ProtoNodeMetaInfo { match v { RawNodeMetaInfo::NodeId => ProtoNodeMetaInfo::NodeId, RawNodeMetaInfo::CHLevel => ProtoNodeMetaInfo::CHLevel, } }
impl vstd::std_specs::convert::FromSpecImpl<RawNodeMetaInfo> for ProtoNodeMetaInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawNodeMetaInfo) -> ProtoNodeMetaInfo { ni_rp(v) } }
impl From<RawNodeMetaInfo> for ProtoNodeMetaInfo {
@@fn src/configs/parsing/nodes/mod.rs :: ProtoMetaInfo as From<RawMetaInfo>::from [nopub; id=ProtoNodeMetaInfo::fromRawNodeMetaInfo; map=ProtoMetaInfo>ProtoNodeMetaInfo,RawMetaInfo>RawNodeMetaInfo]
@@end
}
@@item src/configs/parsing/nodes/metrics.rs :: ProtoUnitInfo [as=ProtoNodeUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/nodes/metrics.rs :: RawUnitInfo [as=RawNodeUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
pub open spec fn nu_pc(v: ProtoNodeUnitInfo) -> NodeUnitInfo { match v { ProtoNodeUnitInfo::Latitude => NodeUnitInfo::Latitude, ProtoNodeUnitInfo::Longitude => NodeUnitInfo::Longitude, ProtoNodeUnitInfo::Height => NodeUnitInfo::Height, } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoNodeUnitInfo> for NodeUnitInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoNodeUnitInfo) -> NodeUnitInfo { nu_pc(v) } }
impl From<ProtoNodeUnitInfo> for NodeUnitInfo {
@@fn src/configs/parsing/nodes/metrics.rs :: UnitInfo as From<ProtoUnitInfo>::from [nopub; id=NodeUnitInfo::fromProtoNodeUnitInfo; map=UnitInfo>NodeUnitInfo,ProtoUnitInfo>ProtoNodeUnitInfo]
@@end
}
pub open spec fn nu_rp(v: RawNodeUnitInfo) -> ProtoNodeUnitInfo { match v { RawNodeUnitInfo::Latitude => ProtoNodeUnitInfo::Latitude, RawNodeUnitInfo::Longitude => ProtoNodeUnitInfo::Longitude, } }
impl vstd::std_specs::convert::FromSpecImpl<RawNodeUnitInfo> for ProtoNodeUnitInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawNodeUnitInfo) -> ProtoNodeUnitInfo { nu_rp(v) } }
impl From<RawNodeUnitInfo> for ProtoNodeUnitInfo {
@@fn src/configs/parsing/nodes/metrics.rs :: ProtoUnitInfo as From<RawUnitInfo>::from [nopub; id=ProtoNodeUnitInfo::fromRawNodeUnitInfo; map=ProtoUnitInfo>ProtoNodeUnitInfo,RawUnitInfo>RawNodeUnitInfo]
@@end
}
@@item src/configs/parsing/nodes/mod.rs :: RawCategory [as=RawNodeCategory; map=metrics::RawUnitInfo>RawNodeUnitInfo,RawMetaInfo>RawNodeMetaInfo]
@@item src/configs/parsing/nodes/mod.rs :: ProtoCategory [as=ProtoNodeCategory; map=metrics::ProtoUnitInfo>ProtoNodeUnitInfo,ProtoMetaInfo>ProtoNodeMetaInfo]
@@item src/configs/parsing/nodes/mod.rs :: RawConfig [as=RawNodesConfig; map=RawCategory>RawNodeCategory]
@@item src/configs/parsing/nodes/mod.rs :: ProtoConfig [as=ProtoNodesConfig; map=ProtoCategory>ProtoNodeCategory]
pub open spec fn n_pc(v: ProtoNodeCategory) -> NodeCategory { match v { ProtoNodeCategory::Meta { info, id } => NodeCategory::Meta { info: ni_pc(info), id }, ProtoNodeCategory::Metric { unit, id } => NodeCategory::Metric { unit: nu_pc(unit), id }, ProtoNodeCategory::Ignored => NodeCategory::Ignored } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoNodeCategory> for NodeCategory { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoNodeCategory) -> NodeCategory { n_pc(v) } }
impl From<ProtoNodeCategory> for NodeCategory {
@@fn src/configs/parsing/nodes/mod.rs :: Category as From<ProtoCategory>::from [nopub; id=NodeCategory::fromProtoNodeCategory; map=Category>NodeCategory,ProtoCategory>ProtoNodeCategory,MetaInfo>NodeMetaInfo,metrics::UnitInfo>NodeUnitInfo]
@@end
}
pub open spec fn n_rp(v: RawNodeCategory) -> ProtoNodeCategory { match v { RawNodeCategory::Meta { info, id } => ProtoNodeCategory::Meta { info: ni_rp(info), id }, RawNodeCategory::Metric { unit, id } => ProtoNodeCategory::Metric { unit: nu_rp(unit), id }, RawNodeCategory::Ignored => ProtoNodeCategory::Ignored } }
impl vstd::std_specs::convert::FromSpecImpl<RawNodeCategory> for ProtoNodeCategory { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawNodeCategory) -> ProtoNodeCategory { n_rp(v) } }
impl From<RawNodeCategory> for ProtoNodeCategory {
@@fn src/configs/parsing/nodes/mod.rs :: ProtoCategory as From<RawCategory>::from [nopub; id=ProtoNodeCategory::fromRawNodeCategory; map=RawCategory>RawNodeCategory,ProtoCategory>ProtoNodeCategory,ProtoMetaInfo>ProtoNodeMetaInfo,metrics::ProtoUnitInfo>ProtoNodeUnitInfo]
@@end
}
@@item src/configs/parsing/generating/edges/mod.rs :: ProtoMetaInfo [as=ProtoGenMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/generating/edges/mod.rs :: RawMetaInfo [as=RawGenMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
pub open spec fn gi_pc(v: ProtoGenMetaInfo) -> GenMetaInfo { match v { ProtoGenMetaInfo::EdgeId => GenMetaInfo::EdgeId, ProtoGenMetaInfo::SrcIdx => GenMetaInfo::SrcIdx, ProtoGenMetaInfo::SrcLat => GenMetaInfo::SrcLat, ProtoGenMetaInfo::SrcLon => GenMetaInfo::SrcLon, ProtoGenMetaInfo::DstIdx => GenMetaInfo::DstIdx, ProtoGenMetaInfo::DstLat => GenMetaInfo::DstLat, ProtoGenMetaInfo::DstLon => GenMetaInfo::DstLon, ProtoGenMetaInfo::ShortcutIdx0 => GenMetaInfo::ShortcutIdx0, ProtoGenMetaInfo::ShortcutIdx1 => GenMetaInfo::ShortcutIdx1, } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoGenMetaInfo> for GenMetaInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoGenMetaInfo) -> GenMetaInfo { gi_pc(v) } }
impl From<ProtoGenMetaInfo> for GenMetaInfo {
@@fn src/configs/parsing/generating/edges/mod.rs :: MetaInfo as From<ProtoMetaInfo>::from [nopub; id=GenMetaInfo::fromProtoGenMetaInfo; map=MetaInfo>GenMetaInfo,ProtoMetaInfo>ProtoGenMetaInfo]
@@end
}
pub open spec fn gi_rp(v: RawGenMetaInfo) -> ProtoGenMetaInfo { match v { RawGenMetaInfo::EdgeId => ProtoGenMetaInfo::EdgeId, RawGenMetaInfo::SrcIdx => ProtoGenMetaInfo::SrcIdx, RawGenMetaInfo::SrcLat => ProtoGenMetaInfo::SrcLat, RawGenMetaInfo::SrcLon => ProtoGenMetaInfo::SrcLon, RawGenMetaInfo::DstIdx => ProtoGenMetaInfo::DstIdx, RawGenMetaInfo::DstLat => ProtoGenMetaInfo::DstLat, RawGenMetaInfo::DstLon => ProtoGenMetaInfo::DstLon, } }
impl vstd::std_specs::convert::FromSpecImpl<RawGenMetaInfo> for ProtoGenMetaInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawGenMetaInfo) -> ProtoGenMetaInfo { gi_rp(v) } }
impl From<RawGenMetaInfo> for ProtoGenMetaInfo {
@@fn src/configs/parsing/generating/edges/mod.rs :: ProtoMetaInfo as From<RawMetaInfo>::from [nopub; id=ProtoGenMetaInfo::fromRawGenMetaInfo; map=ProtoMetaInfo>ProtoGenMetaInfo,RawMetaInfo>RawGenMetaInfo]
@@end
}
@@item src/configs/parsing/generating/edges/metrics.rs :: ProtoUnitInfo [as=ProtoGenUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/generating/edges/metrics.rs :: RawUnitInfo [as=RawGenUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
pub open spec fn gu_pc(v: ProtoGenUnitInfo) -> GenUnitInfo { match v { ProtoGenUnitInfo::Meters => GenUnitInfo::Meters, ProtoGenUnitInfo::Kilometers => GenUnitInfo::Kilometers, ProtoGenUnitInfo::Seconds => GenUnitInfo::Seconds, ProtoGenUnitInfo::Minutes => GenUnitInfo::Minutes, ProtoGenUnitInfo::Hours => GenUnitInfo::Hours, ProtoGenUnitInfo::KilometersPerHour => GenUnitInfo::KilometersPerHour, ProtoGenUnitInfo::LaneCount => GenUnitInfo::LaneCount, ProtoGenUnitInfo::F64 => GenUnitInfo::F64, } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoGenUnitInfo> for GenUnitInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoGenUnitInfo) -> GenUnitInfo { gu_pc(v) } }
impl From<ProtoGenUnitInfo> for GenUnitInfo {
@@fn src/configs/parsing/generating/edges/metrics.rs :: UnitInfo as From<ProtoUnitInfo>::from [nopub; id=GenUnitInfo::fromProtoGenUnitInfo; map=UnitInfo>GenUnitInfo,ProtoUnitInfo>ProtoGenUnitInfo]
@@end
}
pub open spec fn gu_rp(v: RawGenUnitInfo) -> ProtoGenUnitInfo { match v { RawGenUnitInfo::Meters => ProtoGenUnitInfo::Meters, RawGenUnitInfo::Kilometers => ProtoGenUnitInfo::Kilometers, RawGenUnitInfo::Seconds => ProtoGenUnitInfo::Seconds, RawGenUnitInfo::Minutes => ProtoGenUnitInfo::Minutes, RawGenUnitInfo::Hours => ProtoGenUnitInfo::Hours, RawGenUnitInfo::KilometersPerHour => ProtoGenUnitInfo::KilometersPerHour, RawGenUnitInfo::LaneCount => ProtoGenUnitInfo::LaneCount, RawGenUnitInfo::F64 => ProtoGenUnitInfo::F64, } }
impl vstd::std_specs::convert::FromSpecImpl<RawGenUnitInfo> for ProtoGenUnitInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawGenUnitInfo) -> ProtoGenUnitInfo { gu_rp(v) } }
impl From<RawGenUnitInfo> for ProtoGenUnitInfo {
@@fn src/configs/parsing/generating/edges/metrics.rs :: ProtoUnitInfo as From<RawUnitInfo>::from [nopub; id=ProtoGenUnitInfo::fromRawGenUnitInfo; map=ProtoUnitInfo>ProtoGenUnitInfo,RawUnitInfo>RawGenUnitInfo]
@@end
}
@@item src/configs/parsing/generating/edges/metrics.rs :: RawCategory [as=RawGenMetric; map=RawUnitInfo>RawGenUnitInfo]
@@item src/configs/parsing/generating/edges/metrics.rs :: ProtoCategory [as=ProtoGenMetric; map=ProtoUnitInfo>ProtoGenUnitInfo]
pub open spec fn gm_pc(v: ProtoGenMetric) -> GenMetric { GenMetric { unit: gu_pc(v.unit), id: v.id } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoGenMetric> for GenMetric { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoGenMetric) -> GenMetric { gm_pc(v) } }
impl From<ProtoGenMetric> for GenMetric {
@@fn src/configs/parsing/generating/edges/metrics.rs :: Category as From<ProtoCategory>::from [nopub; id=GenMetric::fromProtoGenMetric; map=Category>GenMetric,ProtoCategory>ProtoGenMetric]
@@end
}
pub open spec fn gm_rp(v: RawGenMetric) -> ProtoGenMetric { ProtoGenMetric { unit: gu_rp(v.unit), id: v.id } }
impl vstd::std_specs::convert::FromSpecImpl<RawGenMetric> for ProtoGenMetric { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawGenMetric) -> ProtoGenMetric { gm_rp(v) } }
impl From<RawGenMetric> for ProtoGenMetric {
@@fn src/configs/parsing/generating/edges/metrics.rs :: ProtoCategory as From<RawCategory>::from [nopub; id=ProtoGenMetric::fromRawGenMetric; map=RawCategory>RawGenMetric,ProtoCategory>ProtoGenMetric,ProtoUnitInfo>ProtoGenUnitInfo]
@@end
}
@@item src/configs/parsing/generating/edges/merge.rs :: RawCategory [as=RawMergeCategory]
@@item src/configs/parsing/generating/edges/merge.rs :: ProtoCategory [as=ProtoMergeCategory]
pub open spec fn mg_pc(v: ProtoMergeCategory) -> MergeCategory { match v { ProtoMergeCategory::Id(i) => MergeCategory::Id(i), ProtoMergeCategory::Ignored => MergeCategory::Ignored } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoMergeCategory> for MergeCategory { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoMergeCategory) -> MergeCategory { mg_pc(v) } }
impl From<ProtoMergeCategory> for MergeCategory {
@@fn src/configs/parsing/generating/edges/merge.rs :: Category as From<ProtoCategory>::from [nopub; id=MergeCategory::fromProtoMergeCategory; map=Category>MergeCategory,ProtoCategory>ProtoMergeCategory]
@@end
}
pub open spec fn mg_rp(v: RawMergeCategory) -> ProtoMergeCategory { match v { RawMergeCategory::Id(i) => ProtoMergeCategory::Id(i), RawMergeCategory::Ignored => ProtoMergeCategory::Ignored } }
impl vstd::std_specs::convert::FromSpecImpl<RawMergeCategory> for ProtoMergeCategory { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawMergeCategory) -> ProtoMergeCategory { mg_rp(v) } }
impl From<RawMergeCategory> for ProtoMergeCategory {
@@fn src/configs/parsing/generating/edges/merge.rs :: ProtoCategory as From<RawCategory>::from [nopub; id=ProtoMergeCategory::fromRawMergeCategory; map=RawCategory>RawMergeCategory,ProtoCategory>ProtoMergeCategory]
@@end
}
@@item src/configs/parsing/generating/edges/mod.rs :: RawCategory [as=RawGenCategory; map=f64>F64,RawMetaInfo>RawGenMetaInfo,metrics::RawUnitInfo>RawGenUnitInfo,metrics::RawCategory>RawGenMetric,merge::RawCategory>RawMergeCategory]
@@item src/configs/parsing/generating/edges/mod.rs :: ProtoCategory [as=ProtoGenCategory; map=f64>F64,ProtoMetaInfo>ProtoGenMetaInfo,metrics::ProtoUnitInfo>ProtoGenUnitInfo,metrics::ProtoCategory>ProtoGenMetric,merge::ProtoCategory>ProtoMergeCategory]
@@item src/configs/parsing/generating/edges/mod.rs :: RawConfig [as=RawGenEdgesConfig; map=RawCategory>RawGenCategory]
@@item src/configs/parsing/generating/edges/mod.rs :: ProtoConfig [as=ProtoGenEdgesConfig; map=ProtoCategory>ProtoGenCategory]
@@item src/configs/parsing/generating/nodes/mod.rs :: ProtoMetaInfo [as=ProtoGenNodeMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/generating/nodes/mod.rs :: RawMetaInfo [as=RawGenNodeMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
pub open spec fn gni_pc(v: ProtoGenNodeMetaInfo) -> GenNodeMetaInfo { match v { ProtoGenNodeMetaInfo::NodeId => GenNodeMetaInfo::NodeId, ProtoGenNodeMetaInfo::NodeIdx => GenNodeMetaInfo::NodeIdx, ProtoGenNodeMetaInfo::CHLevel => GenNodeMetaInfo::CHLevel, } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoGenNodeMetaInfo> for GenNodeMetaInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoGenNodeMetaInfo) -> GenNodeMetaInfo { gni_pc(v) } }
impl From<ProtoGenNodeMetaInfo> for GenNodeMetaInfo {
@@fn src/configs/parsing/generating/nodes/mod.rs :: MetaInfo as From<ProtoMetaInfo>::from [nopub; id=GenNodeMetaInfo::fromProtoGenNodeMetaInfo; map=MetaInfo>GenNodeMetaInfo,ProtoMetaInfo>ProtoGenNodeMetaInfo]
@@end
}
pub open spec fn gni_rp(v: RawGenNodeMetaInfo) -> ProtoGenNodeMetaInfo { match v { RawGenNodeMetaInfo::NodeIdx => ProtoGenNodeMetaInfo::NodeIdx, } }
impl vstd::std_specs::convert::FromSpecImpl<RawGenNodeMetaInfo> for ProtoGenNodeMetaInfo { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawGenNodeMetaInfo) -> ProtoGenNodeMetaInfo { gni_rp(v) } }
impl From<RawGenNodeMetaInfo> for ProtoGenNodeMetaInfo {
@@fn src/configs/parsing/generating/nodes/mod.rs :: ProtoMetaInfo as From<RawMetaInfo>::from [nopub; id=ProtoGenNodeMetaInfo::fromRawGenNodeMetaInfo; map=ProtoMetaInfo>ProtoGenNodeMetaInfo,RawMetaInfo>RawGenNodeMetaInfo]
@@end
}
@@item src/configs/parsing/generating/nodes/mod.rs :: RawCategory [as=RawGenNodeCategory; map=RawMetaInfo>RawGenNodeMetaInfo]
@@item src/configs/parsing/generating/nodes/mod.rs :: ProtoCategory [as=ProtoGenNodeCategory; map=ProtoMetaInfo>ProtoGenNodeMetaInfo]
pub open spec fn gn_pc(v: ProtoGenNodeCategory) -> GenNodeCategory { match v { ProtoGenNodeCategory::Meta { info, id } => GenNodeCategory::Meta { info: gni_pc(info), id } } }
impl vstd::std_specs::convert::FromSpecImpl<ProtoGenNodeCategory> for GenNodeCategory { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ProtoGenNodeCategory) -> GenNodeCategory { gn_pc(v) } }
impl From<ProtoGenNodeCategory> for GenNodeCategory {
@@fn src/configs/parsing/generating/nodes/mod.rs :: Category as From<ProtoCategory>::from [nopub; id=GenNodeCategory::fromProtoGenNodeCategory; map=Category>GenNodeCategory,ProtoCategory>ProtoGenNodeCategory,MetaInfo>GenNodeMetaInfo]
@@end
}
pub open spec fn gn_rp(v: RawGenNodeCategory) -> ProtoGenNodeCategory { match v { RawGenNodeCategory::Meta { info, id } => ProtoGenNodeCategory::Meta { info: gni_rp(info), id } } }
impl vstd::std_specs::convert::FromSpecImpl<RawGenNodeCategory> for ProtoGenNodeCategory { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: RawGenNodeCategory) -> ProtoGenNodeCategory { gn_rp(v) } }
impl From<RawGenNodeCategory> for ProtoGenNodeCategory {
@@fn src/configs/parsing/generating/nodes/mod.rs :: ProtoCategory as From<RawCategory>::from [nopub; id=ProtoGenNodeCategory::fromRawGenNodeCategory; map=RawCategory>RawGenNodeCategory,ProtoCategory>ProtoGenNodeCategory,ProtoMetaInfo>ProtoGenNodeMetaInfo]
@@end
}
@@item src/configs/parsing/generating/nodes/mod.rs :: RawConfig [as=RawGenNodesConfig; map=RawCategory>RawGenNodeCategory]
@@item src/configs/parsing/generating/nodes/mod.rs :: ProtoConfig [as=ProtoGenNodesConfig; map=ProtoCategory>ProtoGenNodeCategory]
@@item src/configs/parsing/generating/mod.rs :: RawConfig [as=RawGenCfg; map=nodes::RawConfig>RawGenNodesConfig,edges::RawConfig>RawGenEdgesConfig]
@@item src/configs/parsing/generating/mod.rs :: ProtoConfig [as=ProtoGenCfg; map=nodes::ProtoConfig>ProtoGenNodesConfig,edges::ProtoConfig>ProtoGenEdgesConfig]
@@item src/configs/parsing/mod.rs :: RawContent [as=RawContent; map=vehicles::RawConfig>RawVehiclesConfig,edges::RawConfig>RawEdgesConfig,nodes::RawConfig>RawNodesConfig,generating::RawConfig>RawGenCfg]
@@item src/configs/parsing/mod.rs :: RawConfig [as=RawParsingConfig]
@@item src/configs/parsing/mod.rs :: ProtoConfig [as=ProtoParsingConfig; map=vehicles::ProtoConfig>ProtoVehiclesConfig,edges::ProtoConfig>ProtoEdgesConfig,nodes::ProtoConfig>ProtoNodesConfig,generating::ProtoConfig>ProtoGenCfg]
// ---------------------------------------------------------------- lists of entries
impl ProtoEdgesConfig {
@@fn src/configs/parsing/edges/mod.rs :: ProtoConfig as From<RawConfig>::from [id=ProtoEdgesConfig::from; map=ProtoConfig>ProtoEdgesConfig,RawConfig>RawEdgesConfig,ProtoCategory>ProtoEdgeCategory]
%hint 0 v
%spec
    ensures r.are_metrics_normalized == raw_cfg.are_metrics_normalized, r.categories@ =~= raw_cfg.data@.map_values(|c| e_rp(c)),
%loop 0
    invariant i_0 <= raw_cfg.data.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == e_rp(raw_cfg.data@[i]),
    decreases raw_cfg.data.len() - i_0,
@@end
}
impl ProtoNodesConfig {
@@fn src/configs/parsing/nodes/mod.rs :: ProtoConfig as From<RawConfig>::from [id=ProtoNodesConfig::from; map=ProtoConfig>ProtoNodesConfig,RawConfig>RawNodesConfig,ProtoCategory>ProtoNodeCategory]
%hint 0 v
%spec
    ensures r.0@ =~= raw_cfg.0@.map_values(|c| n_rp(c)),
%loop 0
    invariant i_0 <= raw_cfg.0.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == n_rp(raw_cfg.0@[i]),
    decreases raw_cfg.0.len() - i_0,
@@end
}
impl NodesConfig {
@@fn src/configs/parsing/nodes/mod.rs :: Config as From<ProtoConfig>::from [id=NodesConfig::from; map=Config>NodesConfig,ProtoConfig>ProtoNodesConfig,Category>NodeCategory]
%hint 0 v
%spec
    ensures r.categories@ =~= proto_cfg.0@.map_values(|c| n_pc(c)),
%loop 0
    invariant i_0 <= proto_cfg.0.len(), categories@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] categories@[i] == n_pc(proto_cfg.0@[i]),
    decreases proto_cfg.0.len() - i_0,
@@end
}
impl VehiclesConfig {
@@fn src/configs/parsing/vehicles.rs :: Config as Default::default [id=VehiclesConfig::default; map=Config>VehiclesConfig,defaults::parsing::vehicles::CATEGORY>CATEGORY,defaults::parsing::vehicles::ARE_DRIVERS_PICKY>ARE_DRIVERS_PICKY]
%spec
    ensures r.category is Car, r.are_drivers_picky,
@@end
@@fn src/configs/parsing/vehicles.rs :: Config as From<ProtoConfig>::from [id=VehiclesConfig::from; map=Config>VehiclesConfig,ProtoConfig>ProtoVehiclesConfig]
%spec
    ensures r.category == proto_cfg.category, r.are_drivers_picky == proto_cfg.are_drivers_picky,
@@end
}
impl ProtoVehiclesConfig {
@@fn src/configs/parsing/vehicles.rs :: ProtoConfig as From<RawConfig>::from [id=ProtoVehiclesConfig::from; map=ProtoConfig>ProtoVehiclesConfig,RawConfig>RawVehiclesConfig]
%spec
    ensures r.category == raw_cfg.category, r.are_drivers_picky == raw_cfg.are_drivers_picky,
@@end
}
// ---------------------------------------------------------------- edges: ids once, metrics in the order of their columns
impl Clone for ProtoEdgeCategory { #[verifier::external_body] fn clone(&self) -> (r: ProtoEdgeCategory) ensures same_pcat(*self, r) { unimplemented!() } }   // derived in the source
pub open spec fn same_pcat(a: ProtoEdgeCategory, b: ProtoEdgeCategory) -> bool { match (a, b) {
    (ProtoEdgeCategory::Meta { info, id }, ProtoEdgeCategory::Meta { info: i2, id: d2 }) => info == i2 && idc(id) == idc(d2),
    (ProtoEdgeCategory::Metric { unit, id }, ProtoEdgeCategory::Metric { unit: u2, id: d2 }) => unit == u2 && idc(id) == idc(d2),
    (ProtoEdgeCategory::Ignored, ProtoEdgeCategory::Ignored) => true,
    _ => false } }
pub open spec fn named(c: ProtoEdgeCategory) -> bool { !(c is Ignored) }
pub open spec fn name(c: ProtoEdgeCategory) -> int { match c { ProtoEdgeCategory::Meta { info, id } => idc(id), ProtoEdgeCategory::Metric { unit, id } => idc(id), ProtoEdgeCategory::Ignored => 0 } }
pub open spec fn clash(s: Seq<ProtoEdgeCategory>, i: int, j: int) -> bool { named(s[i]) && named(s[j]) && name(s[i]) == name(s[j]) }
/// no two entries have the same id
pub open spec fn names_once(s: Seq<ProtoEdgeCategory>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !#[trigger] clash(s, i, j) }
/// the entry c means what the document's entry p says
pub open spec fn means(p: ProtoEdgeCategory, c: EdgeCategory) -> bool { exists|q: ProtoEdgeCategory| #[trigger] same_pcat(p, q) && c == e_pc(q) }
pub open spec fn means2(p: ProtoEdgeCategory, c: EdgeCategory) -> bool { match (p, c) {
    (ProtoEdgeCategory::Meta { info, id }, EdgeCategory::Meta { info: i2, id: d2 }) => i2 == ei_pc(info) && idc(id) == idc(d2),
    (ProtoEdgeCategory::Metric { unit, id }, EdgeCategory::Metric { unit: u2, id: d2 }) => u2 == u_pc(unit) && idc(id) == idc(d2),
    (ProtoEdgeCategory::Ignored, EdgeCategory::Ignored) => true,
    _ => false } }
/// metrics before the n-th column
pub open spec fn metrics_before(s: Seq<ProtoEdgeCategory>, n: int) -> nat decreases n { if n <= 0 { 0 } else { metrics_before(s, n - 1) + if s[n - 1] is Metric { 1nat } else { 0nat } } }
/// the k-th metric belongs to the k-th metric-column
pub open spec fn metrics_listed(s: Seq<ProtoEdgeCategory>, us: Seq<UnitInfo>, ids: Seq<SimpleId>, n: int) -> bool {
    us.len() == metrics_before(s, n) && ids.len() == metrics_before(s, n)
    && forall|i: int| 0 <= i < n && s[i] is Metric ==> metrics_before(s, i) < us.len() && us[metrics_before(s, i) as int] == u_pc((#[trigger] s[i])->unit) && idc(ids[metrics_before(s, i) as int]) == name(s[i])
}
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
proof fn lem_listed(s: Seq<ProtoEdgeCategory>, us: Seq<UnitInfo>, ids: Seq<SimpleId>, us2: Seq<UnitInfo>, ids2: Seq<SimpleId>, n: int)
    requires 0 <= n < s.len(), metrics_listed(s, us, ids, n),
        s[n] is Metric ==> us2.len() == us.len() + 1 && ids2.len() == ids.len() + 1 && us2.drop_last() =~= us && ids2.drop_last() =~= ids && us2.last() == u_pc(s[n]->unit) && idc(ids2.last()) == name(s[n]),
        !(s[n] is Metric) ==> us2 == us && ids2 == ids,
    ensures metrics_listed(s, us2, ids2, n + 1)
{
    assert forall|i: int| 0 <= i < n + 1 && s[i] is Metric implies metrics_before(s, i) < us2.len() && us2[metrics_before(s, i) as int] == u_pc((#[trigger] s[i])->unit) && idc(ids2[metrics_before(s, i) as int]) == name(s[i]) by {
        if i < n { let k = metrics_before(s, i) as int; assert(k < us.len()); if s[n] is Metric { assert(us2.drop_last()[k] == us2[k]); assert(ids2.drop_last()[k] == ids2[k]); } }
    }
}
proof fn lem_before_mono(s: Seq<ProtoEdgeCategory>, a: int, b: int) requires 0 <= a <= b ensures metrics_before(s, a) <= metrics_before(s, b) decreases b - a { if a < b { lem_before_mono(s, a, b - 1); } }
/// every metric comes from a column
proof fn lem_col_of(s: Seq<ProtoEdgeCategory>, n: int, k: int) requires 0 <= k < metrics_before(s, n), 0 <= n
    ensures exists|i: int| 0 <= i < n && (#[trigger] s[i]) is Metric && metrics_before(s, i) == k decreases n
{ if n > 0 { if k < metrics_before(s, n - 1) { lem_col_of(s, n - 1, k); } else { assert(s[n - 1] is Metric); } } }
/// what a parsed edges-section is: columns as listed, distinct metric-ids, as many units as ids
pub open spec fn edges_of(p: ProtoEdgesConfig, c: EdgesConfig) -> bool {
    names_once(p.categories@) && c.categories@.len() == p.categories@.len()
    && (forall|i: int| 0 <= i < c.categories@.len() ==> means2(p.categories@[i], #[trigger] c.categories@[i]))
    && metrics_listed(p.categories@, c.metrics.units@, c.metrics.ids@, p.categories@.len() as int)
    && c.metrics.are_normalized == (p.are_metrics_normalized == Some(true))
}
pub proof fn c16_ids_distinct(p: ProtoEdgesConfig, c: EdgesConfig) requires edges_of(p, c)
    ensures c.metrics.units@.len() == c.metrics.ids@.len(), forall|k: int| 0 <= k < c.metrics.ids@.len() ==> at_id(c.metrics.ids@, idc(#[trigger] c.metrics.ids@[k]), k)
{
    let s = p.categories@; let ids = c.metrics.ids@; let n = s.len() as int;
    assert forall|k: int| 0 <= k < ids.len() implies at_id(ids, idc(#[trigger] ids[k]), k) by {
        lem_col_of(s, n, k); let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]) is Metric && metrics_before(s, i) == k;
        assert forall|h: int| 0 <= h < k implies idc(#[trigger] ids[h]) != idc(ids[k]) by {
            lem_col_of(s, n, h); let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]) is Metric && metrics_before(s, j) == h;
            if j > i { lem_before_mono(s, i, j); }
            if i == j {}
            assert(j < i); assert(!clash(s, j, i));
            assert(idc(ids[k]) == name(s[i])); assert(idc(ids[h]) == name(s[j]));
        }
    }
}
@@item src/defaults.rs :: WILL_NORMALIZE_METRICS_BY_MEAN [mod=parsing]
impl EdgesConfig {
@@fn src/configs/parsing/edges/mod.rs :: Config as TryFrom<ProtoConfig>::try_from [id=EdgesConfig::try_from; map=Config>EdgesConfig,ProtoConfig>ProtoEdgesConfig,ProtoCategory>ProtoEdgeCategory,metrics::Config>EdgeMetricsConfig,defaults::parsing::WILL_NORMALIZE_METRICS_BY_MEAN>WILL_NORMALIZE_METRICS_BY_MEAN]
%hint 2 v
%spec
    ensures r is Err == !names_once(proto_cfg.categories@), r is Ok ==> edges_of(proto_cfg, r->Ok_0),
%loop 0
    invariant i_0 <= n_0, n_0 == proto_cfg.categories@.len(), forall|i: int, j: int| 0 <= i < i_0 && i < j < n_0 ==> !#[trigger] clash(proto_cfg.categories@, i, j),
    decreases n_0 - i_0,
%loop 1
    invariant i_0 <= n_0, n_0 == n_1, i_0 == i + 1, i < i_1 <= n_1, n_0 == proto_cfg.categories@.len(), named(proto_cfg.categories@[i as int]), name(proto_cfg.categories@[i as int]) == idc(*id_i),
        forall|j: int| i < j < i_1 ==> !#[trigger] clash(proto_cfg.categories@, i as int, j),
    decreases n_1 - i_1,
%before: return Err
    proof { assert(clash(proto_cfg.categories@, i as int, j as int)); }
%loop 2
    invariant i_2 <= proto_cfg.categories@.len(), categories@.len() == i_2, names_once(proto_cfg.categories@),
        forall|i: int| 0 <= i < i_2 ==> means2(proto_cfg.categories@[i], #[trigger] categories@[i]),
        metrics_listed(proto_cfg.categories@, metric_units@, metric_ids@, i_2 as int),
    decreases proto_cfg.categories@.len() - i_2,
%loop 2 start
    let ghost us = metric_units@; let ghost ids = metric_ids@;
%loop 2 end
    proof { lem_listed(proto_cfg.categories@, us, ids, metric_units@, metric_ids@, x_2 as int); }
@@end
}
// ---------------------------------------------------------------- generating
pub open spec fn gen_of(p: ProtoGenCategory, c: GenCategory) -> bool { match (p, c) {
    (ProtoGenCategory::Meta { info, id }, GenCategory::Meta { info: i2, id: d2 }) => i2 == gi_pc(info) && id == d2,
    (ProtoGenCategory::Custom { unit, id, default }, GenCategory::Custom { unit: u2, id: d2, default: f2 }) => u2 == gu_pc(unit) && id == d2 && default@ == f2@,
    (ProtoGenCategory::Haversine { unit, id }, GenCategory::Haversine { unit: u2, id: d2 }) => u2 == gu_pc(unit) && id == d2,
    (ProtoGenCategory::Copy { from, to }, GenCategory::Copy { from: a, to: b }) => a == gm_pc(from) && b == gm_pc(to),
    (ProtoGenCategory::Convert { from, to }, GenCategory::Convert { from: a, to: b }) => a == gm_pc(from) && b == gm_pc(to),
    (ProtoGenCategory::Calc { result, a, b }, GenCategory::Calc { result: r2, a: a2, b: b2 }) => r2 == gm_pc(result) && a2 == gm_pc(a) && b2 == gm_pc(b),
    (ProtoGenCategory::Merge { from, is_file_with_header, edge_id, edges_info }, GenCategory::Merge { from: f2, is_file_with_header: h2, edge_id: d2, edges_info: e2 }) =>
        from == f2 && h2 == (is_file_with_header != Some(false)) && edge_id == d2 && e2@ =~= edges_info@.map_values(|x| mg_pc(x)),
    _ => false } }
pub open spec fn gen_raw(p: RawGenCategory, c: ProtoGenCategory) -> bool { match (p, c) {
    (RawGenCategory::Meta { info, id }, ProtoGenCategory::Meta { info: i2, id: d2 }) => i2 == gi_rp(info) && id == d2,
    (RawGenCategory::Custom { unit, id, default }, ProtoGenCategory::Custom { unit: u2, id: d2, default: f2 }) => u2 == (match unit { Some(u) => gu_rp(u), None => ProtoGenUnitInfo::F64 }) && id == d2 && (match default { Some(f) => f2@ == f@, None => f2@ == Ext::Fin(0real) }),
    (RawGenCategory::Haversine { unit, id }, ProtoGenCategory::Haversine { unit: u2, id: d2 }) => u2 == gu_rp(unit) && id == d2,
    (RawGenCategory::Copy { from, to }, ProtoGenCategory::Copy { from: a, to: b }) => a == gm_rp(from) && b == gm_rp(to),
    (RawGenCategory::Convert { from, to }, ProtoGenCategory::Convert { from: a, to: b }) => a == gm_rp(from) && b == gm_rp(to),
    (RawGenCategory::Calc { result, a, b }, ProtoGenCategory::Calc { result: r2, a: a2, b: b2 }) => r2 == gm_rp(result) && a2 == gm_rp(a) && b2 == gm_rp(b),
    (RawGenCategory::Merge { from, is_file_with_header, edge_id, edges_info }, ProtoGenCategory::Merge { from: f2, is_file_with_header: h2, edge_id: d2, edges_info: e2 }) =>
        from == f2 && h2 == is_file_with_header && edge_id == d2 && e2@ =~= edges_info@.map_values(|x| mg_rp(x)),
    _ => false } }
@@item src/defaults.rs :: IS_WRITING_WITH_HEADER [mod=writing]
impl vstd::std_specs::convert::FromSpecImpl<ProtoGenCategory> for GenCategory { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: ProtoGenCategory) -> GenCategory; }
impl From<ProtoGenCategory> for GenCategory {
@@fn src/configs/parsing/generating/edges/mod.rs :: Category as From<ProtoCategory>::from [nopub; id=GenCategory::from; map=Category>GenCategory,ProtoCategory>ProtoGenCategory,merge::Category>MergeCategory,defaults::writing::IS_WRITING_WITH_HEADER>IS_WRITING_WITH_HEADER]
%hint 0 v
%spec
    ensures gen_of(proto_category, r),
%loop 0
    invariant i_0 <= edges_info.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == mg_pc(edges_info@[i]),
    decreases edges_info.len() - i_0,
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<RawGenCategory> for ProtoGenCategory { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: RawGenCategory) -> ProtoGenCategory; }
impl From<RawGenCategory> for ProtoGenCategory {
@@fn src/configs/parsing/generating/edges/mod.rs :: ProtoCategory as From<RawCategory>::from [nopub; id=ProtoGenCategory::from; map=ProtoCategory>ProtoGenCategory,RawCategory>RawGenCategory,metrics::ProtoCategory>ProtoGenMetric,metrics::RawUnitInfo>RawGenUnitInfo,metrics::ProtoUnitInfo>ProtoGenUnitInfo,ProtoMetaInfo>ProtoGenMetaInfo,merge::ProtoCategory>ProtoMergeCategory]
%rw: default.unwrap_or_default() => default.unwrap_or(f64_lit(0, 1))
%hint 0 v
%spec
    ensures gen_raw(raw_category, r),
%loop 0
    invariant i_0 <= edges_info.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == mg_rp(edges_info@[i]),
    decreases edges_info.len() - i_0,
@@end
}
impl ProtoGenEdgesConfig {
@@fn src/configs/parsing/generating/edges/mod.rs :: ProtoConfig as From<RawConfig>::from [id=ProtoGenEdgesConfig::from; map=ProtoConfig>ProtoGenEdgesConfig,RawConfig>RawGenEdgesConfig,ProtoCategory>ProtoGenCategory]
%hint 0 v
%spec
    ensures gens_raw(raw_cfg, r),
%loop 0
    invariant i_0 <= raw_cfg.0.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> gen_raw(raw_cfg.0@[i], #[trigger] r_0@[i]),
    decreases raw_cfg.0.len() - i_0,
@@end
}
pub open spec fn gens_raw(p: RawGenEdgesConfig, r: ProtoGenEdgesConfig) -> bool { r.0@.len() == p.0@.len() && forall|i: int| 0 <= i < r.0@.len() ==> gen_raw(p.0@[i], #[trigger] r.0@[i]) }
pub open spec fn gens_of(p: ProtoGenEdgesConfig, r: GenEdgesConfig) -> bool { r.categories@.len() == p.0@.len() && forall|i: int| 0 <= i < r.categories@.len() ==> gen_of(p.0@[i], #[trigger] r.categories@[i]) }
impl ProtoGenNodesConfig {
@@fn src/configs/parsing/generating/nodes/mod.rs :: ProtoConfig as From<RawConfig>::from [id=ProtoGenNodesConfig::from; map=ProtoConfig>ProtoGenNodesConfig,RawConfig>RawGenNodesConfig,ProtoCategory>ProtoGenNodeCategory]
%hint 0 v
%spec
    ensures r.categories@ =~= raw_cfg.0@.map_values(|c| gn_rp(c)),
%loop 0
    invariant i_0 <= raw_cfg.0.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == gn_rp(raw_cfg.0@[i]),
    decreases raw_cfg.0.len() - i_0,
@@end
}
impl ProtoGenCfg {
@@fn src/configs/parsing/generating/mod.rs :: ProtoConfig as From<RawConfig>::from [id=ProtoGenCfg::from; map=ProtoConfig>ProtoGenCfg,RawConfig>RawGenCfg,nodes::ProtoConfig>ProtoGenNodesConfig,edges::ProtoConfig>ProtoGenEdgesConfig]
%spec
    ensures pgen_of(raw_cfg, r),
@@end
}
pub open spec fn pgen_of(p: RawGenCfg, r: ProtoGenCfg) -> bool { gens_raw(p.edges, r.edges) && r.nodes.categories@ =~= p.nodes.0@.map_values(|c| gn_rp(c)) }
pub open spec fn gencfg_of(p: ProtoGenCfg, r: GenCfg) -> bool { gens_of(p.edges, r.edges) && r.nodes.categories@ =~= p.nodes.categories@.map_values(|c| gn_pc(c)) }
impl GenCfg {
@@fn src/configs/parsing/generating/mod.rs :: Config as From<ProtoConfig>::from [id=GenCfg::from; map=ProtoConfig>ProtoGenCfg,Config>GenCfg,nodes::Config>GenNodesConfig,edges::Config>GenEdgesConfig]
%hint 0 v
%hint 1 v
%spec
    ensures gencfg_of(proto_cfg, r),
%loop 0
    invariant i_0 <= proto_cfg.nodes.categories.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == gn_pc(proto_cfg.nodes.categories@[i]),
    decreases proto_cfg.nodes.categories.len() - i_0,
%loop 1
    invariant i_1 <= proto_cfg.edges.0.len(), r_1@.len() == i_1, forall|i: int| 0 <= i < i_1 ==> gen_of(proto_cfg.edges.0@[i], #[trigger] r_1@[i]),
    decreases proto_cfg.edges.0.len() - i_1,
@@end
}
// ---------------------------------------------------------------- the whole document
pub open spec fn doc_of(p: ProtoParsingConfig, c: ParsingConfig) -> bool {
    c.map_file == p.map_file
    && (match p.vehicles { Some(v) => c.vehicles.category == v.category && c.vehicles.are_drivers_picky == v.are_drivers_picky, None => c.vehicles.category is Car && c.vehicles.are_drivers_picky })
    && c.nodes.categories@ =~= p.nodes.0@.map_values(|x| n_pc(x)) && edges_of(p.edges, c.edges)
    && (c.generating is Some == p.generating is Some) && (p.generating is Some ==> gencfg_of(p.generating->0, c.generating->0)) }
pub open spec fn doc_raw(p: RawContent, c: ProtoParsingConfig) -> bool {
    c.map_file == p.map_file && (c.vehicles is Some == p.vehicles is Some) && (p.vehicles is Some ==> c.vehicles->0.category == p.vehicles->0.category && c.vehicles->0.are_drivers_picky == p.vehicles->0.are_drivers_picky)
    && c.nodes.0@ =~= p.nodes.0@.map_values(|x| n_rp(x)) && c.edges.are_metrics_normalized == p.edges.are_metrics_normalized && c.edges.categories@ =~= p.edges.data@.map_values(|x| e_rp(x))
    && (c.generating is Some == p.generating is Some) && (p.generating is Some ==> pgen_of(p.generating->0, c.generating->0)) }
impl ProtoParsingConfig {
@@fn src/configs/parsing/mod.rs :: ProtoConfig as From<RawConfig>::from [id=ProtoParsingConfig::from; map=ProtoConfig>ProtoParsingConfig,RawConfig>RawParsingConfig,vehicles::ProtoConfig>ProtoVehiclesConfig,nodes::ProtoConfig>ProtoNodesConfig,edges::ProtoConfig>ProtoEdgesConfig,generating::ProtoConfig>ProtoGenCfg]
%spec
    ensures doc_raw(raw_cfg.parsing, r),
@@end
}
impl ParsingConfig {
@@fn src/configs/parsing/mod.rs :: Config as TryFrom<ProtoConfig>::try_from [id=ParsingConfig::try_from; map=ProtoConfig>ProtoParsingConfig,Config>ParsingConfig,vehicles::Config>VehiclesConfig,nodes::Config>NodesConfig,edges::Config>EdgesConfig,generating::Config>GenCfg]
%spec
    ensures r is Err == !names_once(proto_cfg.edges.categories@), r is Ok ==> doc_of(proto_cfg, r->Ok_0),
@@end
}
// ---------------------------------------------------------------- the document, directly: every entry of the list, at its place, means what it says
pub open spec fn col_says(p: RawEdgeCategory, c: EdgeCategory) -> bool { match (p, c) {
    (RawEdgeCategory::Meta { info, id }, EdgeCategory::Meta { info: i2, id: d2 }) => idc(id) == idc(d2) && (match info { RawEdgeMetaInfo::EdgeId => i2 is EdgeId, RawEdgeMetaInfo::SrcId => i2 is SrcId, RawEdgeMetaInfo::DstId => i2 is DstId, RawEdgeMetaInfo::ShortcutIdx0 => i2 is ShortcutIdx0, RawEdgeMetaInfo::ShortcutIdx1 => i2 is ShortcutIdx1 }),
    (RawEdgeCategory::Metric { unit, id }, EdgeCategory::Metric { unit: u2, id: d2 }) => idc(id) == idc(d2) && (match unit { RawUnitInfo::Meters => u2 is Meters, RawUnitInfo::Kilometers => u2 is Kilometers, RawUnitInfo::Seconds => u2 is Seconds, RawUnitInfo::Minutes => u2 is Minutes, RawUnitInfo::Hours => u2 is Hours,
        RawUnitInfo::KilometersPerHour => u2 is KilometersPerHour, RawUnitInfo::LaneCount => u2 is LaneCount, RawUnitInfo::F64 => u2 is F64 }),
    (RawEdgeCategory::Ignored, EdgeCategory::Ignored) => true,
    _ => false } }
pub open spec fn ncol_says(p: RawNodeCategory, c: NodeCategory) -> bool { match (p, c) {
    (RawNodeCategory::Meta { info, id }, NodeCategory::Meta { info: i2, id: d2 }) => id == d2 && (match info { RawNodeMetaInfo::NodeId => i2 is NodeId, RawNodeMetaInfo::CHLevel => i2 is CHLevel }),
    (RawNodeCategory::Metric { unit, id }, NodeCategory::Metric { unit: u2, id: d2 }) => id == d2 && (match unit { RawNodeUnitInfo::Latitude => u2 is Latitude, RawNodeUnitInfo::Longitude => u2 is Longitude }),
    (RawNodeCategory::Ignored, NodeCategory::Ignored) => true,
    _ => false } }
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
pub proof fn c13_columns_as_listed(raw: RawContent, p: ProtoParsingConfig, c: ParsingConfig)
    requires doc_raw(raw, p), doc_of(p, c),
    ensures c.edges.categories@.len() == raw.edges.data@.len(), forall|i: int| 0 <= i < c.edges.categories@.len() ==> col_says(raw.edges.data@[i], #[trigger] c.edges.categories@[i]),
        c.nodes.categories@.len() == raw.nodes.0@.len(), forall|i: int| 0 <= i < c.nodes.categories@.len() ==> ncol_says(raw.nodes.0@[i], #[trigger] c.nodes.categories@[i]),
        c.edges.metrics.units@.len() == c.edges.metrics.ids@.len(), c.map_file == raw.map_file, c.edges.metrics.are_normalized == (raw.edges.are_metrics_normalized == Some(true)),
{
    assert forall|i: int| 0 <= i < c.edges.categories@.len() implies col_says(raw.edges.data@[i], #[trigger] c.edges.categories@[i]) by { assert(p.edges.categories@[i] == e_rp(raw.edges.data@[i])); assert(means2(p.edges.categories@[i], c.edges.categories@[i])); }
    assert forall|i: int| 0 <= i < c.nodes.categories@.len() implies ncol_says(raw.nodes.0@[i], #[trigger] c.nodes.categories@[i]) by { assert(p.nodes.0@[i] == n_rp(raw.nodes.0@[i])); assert(c.nodes.categories@[i] == n_pc(p.nodes.0@[i])); }
}
/// a rule of the generating-section means what the document says
pub open spec fn same_unit(u: RawGenUnitInfo, v: GenUnitInfo) -> bool { match u { RawGenUnitInfo::Meters => v is Meters, RawGenUnitInfo::Kilometers => v is Kilometers, RawGenUnitInfo::Seconds => v is Seconds, RawGenUnitInfo::Minutes => v is Minutes, RawGenUnitInfo::Hours => v is Hours,
    RawGenUnitInfo::KilometersPerHour => v is KilometersPerHour, RawGenUnitInfo::LaneCount => v is LaneCount, RawGenUnitInfo::F64 => v is F64 } }
pub open spec fn same_metric(a: RawGenMetric, b: GenMetric) -> bool { same_unit(a.unit, b.unit) && a.id == b.id }
pub open spec fn rule_says(p: RawGenCategory, c: GenCategory) -> bool { match (p, c) {
    (RawGenCategory::Meta { info, id }, GenCategory::Meta { info: i2, id: d2 }) => id == d2 && (match info { RawGenMetaInfo::EdgeId => i2 is EdgeId, RawGenMetaInfo::SrcIdx => i2 is SrcIdx, RawGenMetaInfo::SrcLat => i2 is SrcLat, RawGenMetaInfo::SrcLon => i2 is SrcLon, RawGenMetaInfo::DstIdx => i2 is DstIdx, RawGenMetaInfo::DstLat => i2 is DstLat, RawGenMetaInfo::DstLon => i2 is DstLon }),
    (RawGenCategory::Custom { unit, id, default }, GenCategory::Custom { unit: u2, id: d2, default: f2 }) => (match unit { Some(u) => same_unit(u, u2), None => u2 is F64 }) && id == d2 && (match default { Some(f) => f2@ == f@, None => f2@ == Ext::Fin(0real) }),
    (RawGenCategory::Haversine { unit, id }, GenCategory::Haversine { unit: u2, id: d2 }) => same_unit(unit, u2) && id == d2,
    (RawGenCategory::Copy { from, to }, GenCategory::Copy { from: a, to: b }) => same_metric(from, a) && same_metric(to, b),
    (RawGenCategory::Convert { from, to }, GenCategory::Convert { from: a, to: b }) => same_metric(from, a) && same_metric(to, b),
    (RawGenCategory::Calc { result, a, b }, GenCategory::Calc { result: r2, a: a2, b: b2 }) => same_metric(result, r2) && same_metric(a, a2) && same_metric(b, b2),
    (RawGenCategory::Merge { from, is_file_with_header, edge_id, edges_info }, GenCategory::Merge { from: f2, is_file_with_header: h2, edge_id: d2, edges_info: e2 }) =>
        from == f2 && h2 == (is_file_with_header != Some(false)) && edge_id == d2 && e2@.len() == edges_info@.len()
        && forall|i: int| 0 <= i < e2@.len() ==> (match edges_info@[i] { RawMergeCategory::Id(x) => (#[trigger] e2@[i]) == MergeCategory::Id(x), RawMergeCategory::Ignored => e2@[i] is Ignored }),
    _ => false } }
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
pub proof fn c11_rules_as_listed(raw: RawContent, p: ProtoParsingConfig, c: ParsingConfig)
    requires doc_raw(raw, p), doc_of(p, c),
    ensures raw.generating is Some == c.generating is Some,
        raw.generating is Some ==> c.generating->0.edges.categories@.len() == raw.generating->0.edges.0@.len() && c.generating->0.nodes.categories@.len() == raw.generating->0.nodes.0@.len(),
        raw.generating is Some ==> forall|i: int| 0 <= i < c.generating->0.edges.categories@.len() ==> rule_says(raw.generating->0.edges.0@[i], #[trigger] c.generating->0.edges.categories@[i]),
{
    if raw.generating is Some {
        let r = raw.generating->0; let q = p.generating->0; let d = c.generating->0;
        assert forall|i: int| 0 <= i < d.edges.categories@.len() implies rule_says(r.edges.0@[i], #[trigger] d.edges.categories@[i]) by {
            assert(gen_of(q.edges.0@[i], d.edges.categories@[i])); assert(gen_raw(r.edges.0@[i], q.edges.0@[i]));
        }
    }
}
pub proof fn c12_vehicle_as_said(raw: RawContent, p: ProtoParsingConfig, c: ParsingConfig)
    requires doc_raw(raw, p), doc_of(p, c),
    ensures match raw.vehicles { Some(v) => c.vehicles.category == v.category && c.vehicles.are_drivers_picky == v.are_drivers_picky, None => c.vehicles.category is Car && c.vehicles.are_drivers_picky }
{}
