from . import fem_checks, part_checks, sing_checks, coupled_checks, post_checks, geom_checks, tri_checks, safety_checks
