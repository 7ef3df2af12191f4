"""Names generated engine sources are written against, bound to the real library (see stub.py for the oracle's side)."""
# ruff: noqa
import math
import random
from enum import Enum, IntEnum
from typing import Any

from sonolus.script.archetype import (
    EntityRef, PlayArchetype, PreviewArchetype, WatchArchetype, callback, entity_data, entity_info_at, entity_memory, exported, get_archetype_by_name,
    HapticType, imported, shared_memory,
)
from sonolus.script.array import Array, Dim
from sonolus.script.array_like import ArrayLike, check_positive_index, get_positive_index
from sonolus.script.bucket import Bucket, Judgment
from sonolus.script.containers import ArrayMap, ArraySet, Box, FrozenNumSet, Pair, VarArray, sort_linked_entities
from sonolus.script.debug import assert_true, debug_log, debug_pause, error, notify, require, terminate
from sonolus.script.effect import StandardEffect, effects
from sonolus.script.globals import level_data, level_memory
from sonolus.script.instruction import StandardInstruction, instructions
from sonolus.script.interval import Interval, clamp, lerp, remap, unlerp
from sonolus.script.iterator import SonolusIterator
from sonolus.script.maybe import Maybe, Nothing, Some
from sonolus.script.num import Num
from sonolus.script.particle import StandardParticle, particles
from sonolus.script.quad import Quad, Rect
from sonolus.script.record import Record
from sonolus.script.runtime import delta_time, is_skip, navigation_direction, prev_time, time, touches
from sonolus.script.sprite import StandardSprite, skin
from sonolus.script.stream import Stream, StreamGroup, streams
from sonolus.script.values import copy, swap, zeros
from sonolus.script.vec import Vec2
from sonolus.script.options import options, slider_option, toggle_option

__all__ = [n for n in dir() if not n.startswith("_")]
