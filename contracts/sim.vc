@type ChangeEffect #[derive(Copy, Clone)]
@type Event #[derive(Copy, Clone)]
@type Simulator

@fn ChangeEffect::had_change
@spec
    ensures r == (self == Change)

@fn ChangeEffect::update
@spec
    ensures *final(self) == (if *old(self) == Change { Change } else { other })

@fn Simulator::new
@spec
    ensures r.fbas == fbas, r.qsc == qsc, r.monitor == monitor

@fn Simulator::finalize
@spec
    ensures r == self.fbas

@fn Simulator::simulate_global_reevaluation_round
@spec
    requires forall|k: int| 0 <= k < order@.len() ==> #[trigger] order@[k] < old(self).fbas.nodes@.len(), old(self).fbas.nodes@.len() <= max_n(), old(self).qsc.fits(old(self).fbas.nodes@.len() as int), keyed(old(self).fbas), in_bounds(old(self).fbas)
    ensures final(self).qsc == old(self).qsc, keyed(final(self).fbas), in_bounds(final(self).fbas), final(self).fbas.nodes@.len() == old(self).fbas.nodes@.len(), keys_kept(old(self).fbas, final(self).fbas),
        exists|cs: Seq<ChangeEffect>| #[trigger] round_from(old(self).qsc, old(self).fbas, final(self).fbas, order@, cs) && final(self).monitor.log() == old(self).monitor.log() + round_log(order@, cs) && (r == Change) == has_change(cs)
@before for &node_id in order
    let ghost mut cs = Seq::<ChangeEffect>::empty();
    proof { assert(self.monitor.log() =~= old(self).monitor.log() + round_log(order@.take(0), cs)); }
@loop 1
    it1_all == refs(order@), forall|k: int| 0 <= k < order@.len() ==> #[trigger] order@[k] < self.fbas.nodes@.len(), self.fbas.nodes@.len() <= max_n(), self.qsc.fits(self.fbas.nodes@.len() as int), keyed(self.fbas), in_bounds(self.fbas),
    self.qsc == old(self).qsc, self.fbas.nodes@.len() == old(self).fbas.nodes@.len(), keys_kept(old(self).fbas, self.fbas), cs.len() == it1.pos(),
    round_from(self.qsc, old(self).fbas, self.fbas, order@.take(it1.pos()), cs), self.monitor.log() == old(self).monitor.log() + round_log(order@.take(it1.pos()), cs), (any_change == Change) == has_change(cs),
@loopbegin 1
    let ghost m = self.fbas;
    let ghost l = self.monitor.log();
    proof { assert(order@[it1_i] == node_id); }
@loopend 1
    proof {
        lem_kept_keyed(m, self.fbas, node_id as int);
        lem_round_step(self.qsc, old(self).fbas, m, self.fbas, order@, cs, it1_i, change);
        lem_round_log(order@, cs, it1_i, change);
        assert(self.monitor.log() =~= old(self).monitor.log() + round_log(order@.take(it1_i + 1), cs.push(change)));
        cs = cs.push(change);
    }
@tail
    proof { assert(order@.take(order@.len() as int) =~= order@); assert(round_from(old(self).qsc, old(self).fbas, self.fbas, order@, cs)); }

@fn Simulator::simulate_global_reevaluation
@spec
    requires old(self).fbas.nodes@.len() <= max_n(), old(self).qsc.fits(old(self).fbas.nodes@.len() as int), keyed(old(self).fbas), in_bounds(old(self).fbas)
    ensures final(self).qsc == old(self).qsc, keyed(final(self).fbas), in_bounds(final(self).fbas), final(self).fbas.nodes@.len() == old(self).fbas.nodes@.len(), keys_kept(old(self).fbas, final(self).fbas),
        exists|l: Seq<Event>| #[trigger] reevaluated(old(self).qsc, old(self).fbas, final(self).fbas, l, r as int, maximum_number_of_rounds as int) && final(self).monitor.log() == old(self).monitor.log() + l
@before while
    let ghost mut l = Seq::<Event>::empty();
    let ghost l0 = self.monitor.log();
@loop 1
    invariant
    self.fbas.nodes@.len() <= max_n(), self.qsc.fits(self.fbas.nodes@.len() as int), keyed(self.fbas), in_bounds(self.fbas),
    self.qsc == old(self).qsc, self.fbas.nodes@.len() == old(self).fbas.nodes@.len(), keys_kept(old(self).fbas, self.fbas), is_order(order@, self.fbas.nodes@.len() as int), next_round_number <= maximum_number_of_rounds,
    rounds(self.qsc, old(self).fbas, self.fbas, l, next_round_number as int, !stable), self.monitor.log() == l0 + l,
    decreases maximum_number_of_rounds - next_round_number
@loopbegin 1
    let ghost m = self.fbas;
    let ghost round0 = next_round_number as int;
@after order.shuffle
    proof { lem_order(order@, self.fbas.nodes@.len() as usize); }
@after stable =
    proof {
        let cs = choose|cs: Seq<ChangeEffect>| #[trigger] round_from(self.qsc, m, self.fbas, order@, cs) && self.monitor.log() == (l0 + l) + round_log(order@, cs) && (!stable) == has_change(cs);
        assert(one_round(self.qsc, m, self.fbas, order@, cs));
        let l2 = l + round_log(order@, cs);
        lem_rounds_step(self.qsc, old(self).fbas, m, self.fbas, l, order@, cs, round0);
        assert(rounds(self.qsc, old(self).fbas, self.fbas, l2, round0 + 1, !stable));
        assert(self.monitor.log() =~= l0 + l2);
        l = l2;
    }
@tail
    proof { let e = (seq![StartGlobalReevaluation] + l).push(FinishGlobalReevaluation(number_of_rounds)); assert(self.monitor.log() =~= old(self).monitor.log() + e); assert(reevaluated(old(self).qsc, old(self).fbas, self.fbas, e, number_of_rounds as int, maximum_number_of_rounds as int)); }

@fn Simulator::simulate_growth
@spec
    requires old(self).fbas.nodes@.len() + nodes_to_spawn <= max_n(), forall|n: int| old(self).fbas.nodes@.len() < n <= old(self).fbas.nodes@.len() + nodes_to_spawn ==> #[trigger] old(self).qsc.fits(n), keyed(old(self).fbas), in_bounds(old(self).fbas)
    ensures final(self).qsc == old(self).qsc, keyed(final(self).fbas), in_bounds(final(self).fbas), final(self).fbas.nodes@.len() == old(self).fbas.nodes@.len() + nodes_to_spawn, keys_kept(old(self).fbas, final(self).fbas),
        named_from(final(self).fbas, old(self).fbas.nodes@.len() as int),
        exists|l: Seq<Event>| #[trigger] grown(old(self).qsc, old(self).fbas, final(self).fbas, l, nodes_to_spawn as int) && final(self).monitor.log() == old(self).monitor.log() + l
@before for _ in 0..
    let ghost mut l = Seq::<Event>::empty();
    proof { assert(self.monitor.log() =~= old(self).monitor.log() + l); }
@loop 1
    it1_all == range_seq(0, nodes_to_spawn), old(self).fbas.nodes@.len() + nodes_to_spawn <= max_n(), forall|n: int| old(self).fbas.nodes@.len() < n <= old(self).fbas.nodes@.len() + nodes_to_spawn ==> #[trigger] old(self).qsc.fits(n),
    self.qsc == old(self).qsc, keyed(self.fbas), in_bounds(self.fbas), self.fbas.nodes@.len() == old(self).fbas.nodes@.len() + it1.pos(), keys_kept(old(self).fbas, self.fbas),
    named_from(self.fbas, old(self).fbas.nodes@.len() as int),
    grown(self.qsc, old(self).fbas, self.fbas, l, it1.pos()), self.monitor.log() == old(self).monitor.log() + l,
@loopbegin 1
    let ghost m = self.fbas;
    let ghost log0 = self.monitor.log();
@after let node_id
    let ghost a = self.fbas;
    proof { assert(with_new(m, a)); lem_blank_in(m, a); assert forall|j: int| 0 <= j < m.nodes@.len() implies (#[trigger] a.nodes@[j]) == m.nodes@[j] by { assert(a.nodes@.drop_last()[j] == m.nodes@[j]); } }
@after self.qsc.configure
    let ghost b = self.fbas;
    proof { lem_kept_keyed(a, b, node_id as int); }
@after self.monitor.register_event
    let ghost log1 = self.monitor.log();
@loopend 1
    proof {
        let (l1, k) = choose|l1: Seq<Event>, k: int| #[trigger] reevaluated(self.qsc, b, self.fbas, l1, k, b.nodes@.len() as int) && self.monitor.log() == log1 + l1;
        let l2 = seq![AddNode(node_id)] + l1;
        let c = choose|c: ChangeEffect| #[trigger] self.qsc.prescribed(node_id, a, b, c) && (c == NoChange ==> unchanged(a, b));
        assert(step(self.qsc, node_id, a, b, c));
        assert(grown_one(self.qsc, m, self.fbas, l2));
        lem_grown_step(self.qsc, old(self).fbas, m, self.fbas, l, l2, it1_i);
        assert(grown(self.qsc, old(self).fbas, self.fbas, l + l2, it1_i + 1));
        assert(self.monitor.log() =~= old(self).monitor.log() + (l + l2));
        l = l + l2;
        assert forall|j: int| 0 <= j < m.nodes@.len() implies (#[trigger] self.fbas.nodes@[j]).public_key == m.nodes@[j].public_key by { assert(b.nodes@[j].public_key == a.nodes@[j].public_key); }
        assert(b.nodes@[node_id as int].public_key == generic_name(node_id));
    }

@type DebugMonitor

@fn DebugMonitor::new
@spec
    ensures r.recorded_events@ == Seq::<Event>::empty()

@fn DebugMonitor::events_ref
@spec
    ensures r@ == self.recorded_events@

@fn DebugMonitor::events_clone
@spec
    ensures r@ == self.recorded_events@

@fn <SimulationMonitor for DebugMonitor>::register_event
@spec
    ensures final(self).recorded_events@ == old(self).recorded_events@.push(event)
