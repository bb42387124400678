@fn get_edge_from_as_rel_line
@spec
    requires good_line(line@)
    ensures read_as(line@, r)

@fn Graph::from_as_rel_string
@spec
    requires good_text(as_rel_file_contents@)
    ensures reads(as_rel_file_contents@, r.outlinks@)
@closure 1 : Vec<usize>
    ensures vr@ == in_order($1@)
@entry
    broadcast use lem_same_links, lem_views;
@loop 1
    small(it1_all), same_links(as_rel_file_contents@, it1_all), collected(it1_all, outlinks@, it1.pos()),
@loopbegin 1
    let ghost old_outlinks = outlinks@;
    proof { assert(it1_all[it1_i] == (sink, source, peering)); lem_top(it1_all.take(it1_i)); lem_top_step(it1_all, it1_i); }
@loopend 1
    proof {
        assert forall|i: usize, j: usize| i < outlinks@.len() implies ((#[trigger] outlinks@[i as int]@.contains(j)) <==> told(it1_all.take(it1_i + 1), i, j)) by {
            lem_told(it1_all, it1_i, i, j);
            if i < old_outlinks.len() { assert(old_outlinks[i as int]@.contains(j) <==> told(it1_all.take(it1_i), i, j)); }
        }
    }
@before let outlinks: Vec<Vec
    let ghost sets = outlinks@;
    proof { assert(gathered(as_rel_file_contents@, sets)); }
@before Graph::new(outlinks)
    proof { lem_collected(as_rel_file_contents@, sets, outlinks@); }

@fn Graph::to_as_rel_string
@formats
@spec
    requires in_range(graph.outlinks@), nodes_of(*graph) <= max_len(), match head_comment { Some(h) => no_char(h@, '\n'), None => true }
    ensures match r { Ok(t) => writes(graph.outlinks@, t@), Err(_) => false }
@loop 1
    it1_all == range_seq(0, graph.outlinks@.len() as usize), in_range(graph.outlinks@), nodes_of(*graph) <= max_len(),
    written(graph.outlinks@, graph_as_string@, it1.pos(), 0),
@loop 2
    it2_all == refs(graph.outlinks@[i as int]@), i < graph.outlinks@.len(), in_range(graph.outlinks@), nodes_of(*graph) <= max_len(),
    written(graph.outlinks@, graph_as_string@, i as int, it2.pos()),
@before for i in 0..graph
    proof { match head_comment { Some(h) => { assert(graph_as_string@ =~= (seq!['#', ' '] + h@).push('\n')); lem_head(graph_as_string@, h@); } None => {} } }
@loopbegin 2
    let ghost t = graph_as_string@;
@loopend 2
    proof {
        let p = linked(graph.outlinks@, j as int, i);
        assert(graph.outlinks@[i as int]@[it2_i] == j);
        if p && i >= j { assert(graph_as_string@ == t); } else { assert(graph_as_string@ =~= (t + line_text(i, j, p)).push('\n')); }
        lem_entry(graph.outlinks@, t, graph_as_string@, i, it2_i);
    }
@loopend 1
    proof { lem_row_done(graph.outlinks@, graph_as_string@, i as int); }
