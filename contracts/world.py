"""The extracted runtime: one World per process, built from /repo's current source."""
import struct as _struct

from contracts.base import StructModule, xform

import prophy.base_array  # noqa: E402
import prophy.composite
import prophy.composite_base
import prophy.container
import prophy.descriptor
import prophy.generators
import prophy.optional
import prophy.scalar
import prophy.six

_W = None


def world():
    global _W
    if _W is None:
        _W = xform.World(None, [(_struct, StructModule)])
        _W.declare(prophy.base_array.base_array, prophy.composite.struct, prophy.composite.struct_packed,
                   prophy.composite.union, prophy.composite.codec_kind, prophy.container.fixed_scalar_array,
                   prophy.container.bound_scalar_array, prophy.container.fixed_composite_array,
                   prophy.container.bound_composite_array)
    return _W
