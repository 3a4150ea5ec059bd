// ---------------------------------------------------------------- src/configs/parsing: what the graph needs of its config
@@item src/configs/parsing/edges/metrics.rs :: UnitInfo [derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/edges/metrics.rs :: Config [as=EdgeMetricsConfig; drop=ids]
@@item src/configs/parsing/edges/mod.rs :: Config [as=EdgesConfig; drop=categories; map=metrics::Config>EdgeMetricsConfig]
@@item src/configs/parsing/mod.rs :: Config [as=ParsingConfig; drop=map_file,vehicles,nodes; map=edges::Config>EdgesConfig,generating::Config>GenCfg]
#[verifier::external_body]
pub struct GenCfg { x: u8 }   // configs::parsing::generating::Config, opaque
