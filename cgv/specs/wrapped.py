"""Struct functions whose inline counterpart has a different shape."""
from .lib import *
from .cam import pick

P('C30')
S('glms_vec2(vec3 v, >vec2 dest)', lambda v: v[:2])
S('glms_pickmatrix(vec2 center, vec2 size, vec4 vp, >mat4 dest)', lambda c, s, vp: pick(c, s, vp, ident(4)))
