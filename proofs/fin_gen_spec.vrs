%spec
    requires ends_ok(old(graph)), aligned(old(graph)), ids_ok(old(graph)), old(graph).cfg.generating is Some ==> all_mergeable(old(graph).cfg.generating->0),
    ensures old(graph).cfg.generating is None ==> r is Ok && *final(graph) == *old(graph),
        r is Ok ==> eq_nodes(final(graph), old(graph)) && eq_fwd(final(graph), old(graph)) && eq_bwd(final(graph), old(graph)) && eq_sc(final(graph), old(graph)) && final(graph).means == old(graph).means
            && final(graph).cfg.edges.metrics.are_normalized == old(graph).cfg.edges.metrics.are_normalized
            && aligned(final(graph)) && ids_ok(final(graph)),
        r is Ok && old(graph).cfg.generating is Some ==> exists|gs: Seq<Graph>| #[trigger] generated(old(graph), final(graph), old(graph).cfg.generating->0, gs),
        r is Err ==> old(graph).cfg.generating is Some && refused(old(graph), old(graph).cfg.generating->0),
