// ---------------------------------------------------------------- the generating section: its contract only (assumed in this unit)
@@block src/network/graph/building.rs :: GraphBuilder::finalize [as=fin_gen; stub]
%from
    if let Some(generating_cfg) = graph.cfg.generating.take()
%to
    if graph.cfg().edges.metrics.are_normalized
%sig
fn fin_gen(graph: &mut Graph) -> Result<(), Msg>
%tail
    Ok(())
%include fin_gen_spec.vrs
@@end
