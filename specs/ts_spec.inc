// the phases of a transaction: what is waiting to be refreshed, and how deep transactions are nested
pub enum TS { Idle, Modification { level: int, clients: Set<GraphId> }, Refreshing }
pub open spec fn ts_up(t: TS) -> TS {
    match t {
        TS::Idle => TS::Modification { level: 1, clients: Set::empty() },
        TS::Modification { level, clients } => TS::Modification { level: level + 1, clients },
        TS::Refreshing => t,
    }
}
pub open spec fn ts_down(t: TS) -> TS {
    match t {
        TS::Modification { level, clients } => if level == 1 { TS::Refreshing } else { TS::Modification { level: level - 1, clients } },
        _ => t,
    }
}
pub open spec fn ts_down_result(t: TS) -> Option<Set<GraphId>> {
    match t {
        TS::Modification { level, clients } => if level == 1 { Some(clients) } else { None },
        _ => None,
    }
}
pub open spec fn ts_to_idle(t: TS) -> TS { if t is Refreshing { TS::Idle } else { t } }
pub open spec fn ts_add(t: TS, s: Set<GraphId>) -> TS {
    match t {
        TS::Modification { level, clients } => TS::Modification { level, clients: clients.union(s) },
        _ => t,
    }
}
pub open spec fn ts_level(t: TS) -> int {
    match t { TS::Modification { level, .. } => level, _ => 0 }
}
