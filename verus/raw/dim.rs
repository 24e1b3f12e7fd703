pub open spec fn dim(e: &Engine) -> int { e.c_nodes + e.c_vsrcs }
