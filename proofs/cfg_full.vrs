// ---------------------------------------------------------------- src/configs/parsing: the whole configuration
@@include vehicles.vrs
@@item src/configs/parsing/vehicles.rs :: Config [as=VehiclesConfig]
@@item src/configs/parsing/edges/metrics.rs :: UnitInfo [derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/edges/metrics.rs :: Config [as=EdgeMetricsConfig]
@@item src/configs/parsing/edges/mod.rs :: MetaInfo [as=EdgeMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/edges/mod.rs :: Category [as=EdgeCategory; map=metrics::UnitInfo>UnitInfo,MetaInfo>EdgeMetaInfo]
@@item src/configs/parsing/edges/mod.rs :: Config [as=EdgesConfig; map=metrics::Config>EdgeMetricsConfig,Category>EdgeCategory]
@@item src/configs/parsing/nodes/metrics.rs :: UnitInfo [as=NodeUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/nodes/mod.rs :: MetaInfo [as=NodeMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/nodes/mod.rs :: Category [as=NodeCategory; map=metrics::UnitInfo>NodeUnitInfo,MetaInfo>NodeMetaInfo]
@@item src/configs/parsing/nodes/mod.rs :: Config [as=NodesConfig; map=Category>NodeCategory]
@@item src/configs/parsing/generating/nodes/mod.rs :: MetaInfo [as=GenNodeMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/generating/nodes/mod.rs :: Category [as=GenNodeCategory; map=MetaInfo>GenNodeMetaInfo]
@@item src/configs/parsing/generating/nodes/mod.rs :: Config [as=GenNodesConfig; map=Category>GenNodeCategory]
@@item src/configs/parsing/generating/edges/metrics.rs :: UnitInfo [as=GenUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/generating/edges/metrics.rs :: Category [as=GenMetric; map=UnitInfo>GenUnitInfo]
@@item src/configs/parsing/generating/edges/merge.rs :: Category [as=MergeCategory]
@@item src/configs/parsing/generating/edges/mod.rs :: MetaInfo [as=GenMetaInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/generating/edges/mod.rs :: Category [as=GenCategory; map=MetaInfo>GenMetaInfo,metrics::UnitInfo>GenUnitInfo,metrics::Category>GenMetric,merge::Category>MergeCategory]
@@item src/configs/parsing/generating/edges/mod.rs :: Config [as=GenEdgesConfig; map=Category>GenCategory]
@@item src/configs/parsing/generating/mod.rs :: Config [as=GenCfg; map=nodes::Config>GenNodesConfig,edges::Config>GenEdgesConfig]
@@item src/configs/parsing/mod.rs :: Config [as=ParsingConfig; map=vehicles::Config>VehiclesConfig,edges::Config>EdgesConfig,nodes::Config>NodesConfig,generating::Config>GenCfg]
