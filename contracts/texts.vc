//@ results as text
@fn <AnalysisResult for QuorumSet>::into_id_string
@spec
    ensures r@ == serde_json::text(self)

@fn <AnalysisResult for QuorumSet>::into_pretty_string
@spec
    requires fits_g(*fbas, groupings), inr(*fbas, qn(self))
    ensures exists|p: PrettyQuorumSet| pretty(*fbas, groupings, self, p) && r@ == #[trigger] serde_json::text_lines(p)

@fn <AnalysisResult for QuorumSet>::into_describe_string
@spec
    ensures r@ == serde_json::text(self)

@fn <AnalysisResult for NodeIdSetResult>::into_id_string
@spec
    ensures exists|v: Vec<usize>| v@ == elems(self.node_set@) && r@ == #[trigger] serde_json::text(v)

@fn <AnalysisResult for NodeIdSetResult>::into_pretty_string
@spec
    requires inr(*fbas, self.node_set@), groupings is Some ==> grp_ok(*groupings->0)
    ensures exists|v: Vec<String>| shown_all(*fbas, groupings, elems(self.node_set@), v@) && r@ == #[trigger] serde_json::text(v)

@fn <AnalysisResult for NodeIdSetResult>::into_describe_string
@spec
    ensures r@ == dec(self.node_set@.len() as usize)

@fn <AnalysisResult for NodeIdSetVecResult>::into_id_string
@spec
    requires vr_ok(self)
    ensures exists|v: Vec<Vec<usize>>| lists(self, v) && r@ == #[trigger] serde_json::text(v)

@fn <AnalysisResult for NodeIdSetVecResult>::into_pretty_string
@spec
    requires vr_ok(self), forall|i: int| 0 <= i < orig(self).len() ==> inr(*fbas, #[trigger] orig(self)[i]), groupings is Some ==> grp_ok(*groupings->0)
    ensures exists|v: Vec<Vec<String>>| names_lists(*fbas, groupings, self, v) && r@ == #[trigger] serde_json::text(v)

@fn <AnalysisResult for NodeIdSetVecResult>::into_describe_string
@spec
    requires vr_ok(self), self.node_sets@.len() < usize::MAX
    ensures exists|d: (usize, usize, (usize, usize, f64), Vec<usize>)| described(self, d) && r@ == #[trigger] serde_json::text(d)

@fn <Serialize for NodeIdSetResult>::serialize
@spec
    ensures exists|v: Vec<usize>| v@ == elems(self.node_set@) && r == #[trigger] serialized(v, serializer)

@fn <Serialize for NodeIdSetVecResult>::serialize
@spec
    requires vr_ok(*self)
    ensures exists|v: Vec<Vec<usize>>| lists(*self, v) && r == #[trigger] serialized(v, serializer)
