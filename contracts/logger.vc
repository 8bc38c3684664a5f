@include prelude.vc
@include log.vc
