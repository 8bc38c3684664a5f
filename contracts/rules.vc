@include prelude.vc
@include text.vc
@include egg.vc
@include rule.vc
@include lang.vc
@include ruleset.vc
@include sched.vc
@include minim.vc
@include tree.vc
@include analysis.vc
@include general.vc
@include cands.vc
@include cvec.vc
@include wkld.vc
@include pipe.vc
