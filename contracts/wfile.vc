@include enumo.vc
@include world.vc
@include wfiles.vc
