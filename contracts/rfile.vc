@include prelude.vc
@include text.vc
@include egg.vc
@include rule.vc
@include lang.vc
@include ruleset.vc
@include world.vc
@include files.vc
