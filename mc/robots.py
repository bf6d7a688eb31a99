"""Small robots and an independent forward-kinematics reference."""
import math

import numpy as np

# (name, type, parent, child, xyz, rpy, axis, limits); None: no such element
SERIAL = [
    ("s1", "revolute", "b", "l1", (0.0, 0.0, 0.3), (0.0, 0.0, 0.0),
     (0, 0, 1), (-1.5, 0.75)),
    ("s2", "continuous", "l1", "l2", (0.1, 0.0, 0.2), (0.5, -0.3, 0.2),
     (0, 2, 1), None),
    ("s3", "prismatic", "l2", "l3", (0.0, 0.3, 0.0), (1.2, 0.0, -0.7),
     (1, 0, 1), (-0.2, 0.5)),
    ("f1", "fixed", "l3", "l4", (0.05, -0.1, 0.2), (-0.4, 0.9, 0.1),
     None, None),
    ("s4", "revolute", "l4", "l5", (0.2, 0.0, 0.1), (0.0, 1.5, 0.0),
     (-1, 0, 0), (0.25, 2.0)),
    ("f2", "fixed", "l5", "tool", (0.0, 0.0, 0.1), (0.0, 0.0, 0.6),
     None, None),
]
BRANCHED = [
    ("t", "revolute", "b", "torso", (0.0, 0.0, 1.0), (0.0, 0.1, 0.0),
     (0, 0, 1), (-2.0, 2.0)),
    ("la1", "revolute", "torso", "ll1", (0.0, 0.3, 0.1), (0.7, 0.0, 0.0),
     (0, 1, 0), (-1.0, 1.0)),
    ("la2", "prismatic", "ll1", "ll2", (0.2, 0.1, 0.0), (0.0, 0.4, 0.0),
     (0, 0, -1), (-0.4, 0.125)),
    ("lf", "fixed", "ll2", "lhand", (0.0, 0.05, 0.1), (0.3, 0.2, 0.1),
     None, None),
    ("ra1", "continuous", "torso", "rl1", (0.0, -0.3, 0.1), (-0.7, 0.0, 0.2),
     (1, 1, 0), None),
    ("ra2", "revolute", "rl1", "rhand", (0.25, -0.1, 0.0), (0.0, -0.4, 0.3),
     (0, 0, 1), (-0.5, 2.5)),
]
PLANAR = [
    ("q1", "revolute", "b", "l1", (0.0, 0.0, 0.0), (0.0, 0.0, 0.0),
     (0, 0, 1), (-1.5, 1.5)),
    ("q2", "revolute", "l1", "l2", (0.5, 0.0, 0.0), (0.0, 0.0, 0.0),
     (0, 0, 1), (-1.5, 1.5)),
    ("f", "fixed", "l2", "tool", (0.4, 0.0, 0.0), (0.0, 0.0, 0.0),
     None, None),
]
SPATIAL = [
    ("q1", "revolute", "b", "l1", (0.0, 0.0, 0.1), (0.0, 0.0, 0.0),
     (0, 0, 1), (-2.0, 2.0)),
    ("q2", "revolute", "l1", "l2", (0.0, 0.0, 0.2), (0.0, 0.0, 0.0),
     (0, 1, 0), (-1.2, 1.2)),
    ("q3", "prismatic", "l2", "l3", (0.3, 0.0, 0.0), (0.0, 0.0, 0.0),
     (1, 0, 0), (-0.1, 0.3)),
    ("q4", "continuous", "l3", "l4", (0.1, 0.0, 0.0), (0.0, 0.0, 0.0),
     (1, 0, 0), None),
    ("f", "fixed", "l4", "tool", (0.1, 0.0, 0.0), (0.0, 0.0, 0.0),
     None, None),
]
# limits beyond half a turn
WIDE = [
    ("w1", "prismatic", "b", "l1", (0.0, 0.0, 0.2), (0.0, 0.3, 0.0),
     (0, 1, 1), (-8.0, 10.0)),
    ("w2", "revolute", "l1", "l2", (0.1, 0.0, 0.2), (0.2, 0.0, 0.0),
     (0, 0, 1), (-6.0, 5.0)),
    ("f", "fixed", "l2", "tool", (0.4, 0.0, 0.1), (0.0, 0.0, 0.0),
     None, None),
]
ROBOTS = {"serial": SERIAL, "branched": BRANCHED, "planar": PLANAR,
          "spatial": SPATIAL, "wide": WIDE}


def urdf(name):
    joints = ROBOTS[name]
    links = []
    for j in joints:
        for link in (j[2], j[3]):
            if link not in links:
                links.append(link)
    s = '<?xml version="1.0"?>\n<robot name="%s">\n' % name
    s += "".join('<link name="%s"/>\n' % link for link in links)
    for n, kind, parent, child, xyz, rpy, axis, limits in joints:
        s += '<joint name="%s" type="%s">\n' % (n, kind)
        s += '<parent link="%s"/>\n<child link="%s"/>\n' % (parent, child)
        s += '<origin xyz="%s %s %s" rpy="%s %s %s"/>\n' % (xyz + rpy)
        if axis is not None:
            s += '<axis xyz="%s %s %s"/>\n' % axis
        if limits is not None:
            s += '<limit lower="%s" upper="%s"/>\n' % limits
        s += "</joint>\n"
    return s + "</robot>\n"


def _rot(axis, angle):
    x, y, z = np.asarray(axis, dtype=float) / np.linalg.norm(axis)
    k = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + math.sin(angle) * k + (1 - math.cos(angle)) * k.dot(k)


def _hom(r, p):
    h = np.eye(4)
    h[:3, :3] = r
    h[:3, 3] = p
    return h


def limits(name, joint):
    for j in ROBOTS[name]:
        if j[0] == joint:
            return j[7] or (-np.inf, np.inf)
    raise KeyError(joint)


def to_base(name, frame, values):
    """Pose of a link in the root link."""
    by_child = {j[3]: j for j in ROBOTS[name]}
    h = np.eye(4)
    while frame in by_child:
        n, kind, parent, _, xyz, rpy, axis, lim = by_child[frame]
        origin = _hom(_rot((0, 0, 1), rpy[2]).dot(_rot((0, 1, 0), rpy[1]))
                      .dot(_rot((1, 0, 0), rpy[0])), xyz)
        if kind == "fixed":
            motion = np.eye(4)
        else:
            v = values.get(n, 0.0)  # cancels if not in the chain
            if lim is not None:
                v = min(max(v, lim[0]), lim[1])
            if kind == "prismatic":
                motion = _hom(np.eye(3), v * np.asarray(axis, dtype=float)
                              / np.linalg.norm(axis))
            else:
                motion = _hom(_rot(axis, v), np.zeros(3))
        h = origin.dot(motion).dot(h)
        frame = parent
    return h


def fk(name, base, ee, joints, q):
    values = dict(zip(joints, q))
    return np.linalg.inv(to_base(name, base, values)).dot(
        to_base(name, ee, values))


def pose_distance(a, b, wo=1.0, wp=1.0):
    """Weighted rotation angle and distance between two poses."""
    r = a[:3, :3].T.dot(b[:3, :3])
    s = 0.5 * np.linalg.norm([r[2, 1] - r[1, 2], r[0, 2] - r[2, 0],
                              r[1, 0] - r[0, 1]])
    angle = math.atan2(s, (np.trace(r) - 1.0) / 2.0)
    return wo * angle + wp * np.linalg.norm(a[:3, 3] - b[:3, 3])
