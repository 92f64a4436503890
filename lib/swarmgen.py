"""Random robot controllers and the host loop that drives a small swarm of them."""
import random
from util import lit, Builder, rtable, rscalar, rstr, rint

TOPICS = ['t0', 't1', 'chat']


class Ctl:
    """A controller that holds values in every place a script can: globals, locals of outer frames,
    captured variables, table keys and values, methods, stigmergies and their callbacks, listeners."""
    def __init__(self, rng, io=False):
        self.rng = rng
        self.b = Builder()
        self.nact = rng.randint(4, 9)
        r = rng
        self.vs = list(range(r.randint(1, 2)))
        init = ['keep = {}', 'heard = {}', 'n = 0', 'objs = {}']
        for v in self.vs:
            init.append('vs%d = stigmergy.create(%d)' % (v, v + 1))
            if r.random() < .6:
                init.append('vs%d.onconflict(function(k, l, r) {\n  cnt("conf" )\n  if(l.robot > r.robot) { return l } else { return r }\n })' % v)
            if r.random() < .4:
                init.append('vs%d.onconflictlost(function(k, l) { cnt(string.concat("lost", string.tostring(l.robot))) })' % v)
        init.append('sw = {}')
        for i in range(2):
            init.append('sw[%d] = swarm.create(%d)' % (i, i))
        for t in TOPICS[:r.randint(1, 3)]:
            init.append(r.choice([
                'neighbors.listen("%s", function(topic, v, rid) { heard[string.concat(topic, string.tostring(rid))] = v })',
                'neighbors.listen("%s", mklisten(string.concat("pre", "fix")))']) % t)
        for i in range(r.randint(0, 3)):
            init.append('neighbors.listen(string.concat("dy", string.tostring(%d)), function(topic, v, rid) { trace("dyn", topic, v, rid) })' % i)
        self.init = init
        self.acts = [self.act(i) for i in range(self.nact)]

    def val(self, d=2):
        r = self.rng
        x = r.random()
        if x < .3:
            return 'string.concat(%s, string.tostring(n))' % lit(rstr(r))
        if x < .5:
            return self.b(rtable(r, d, 4))
        if x < .6:
            return '{.a = %s, .b = n}' % lit(rscalar(r, False))
        return lit(rscalar(r, False))

    def act(self, i):
        r = self.rng
        c = []
        for _ in range(r.randint(1, 4)):
            self.k = getattr(self, 'k', 0) + 1
            c.append(self.frag().replace('VM', 'm%d' % self.k).replace('VC', 'c%d' % self.k).replace('VW', 'w%d' % self.k))
        return 'function act%d(x) {\n var loc = {.x = x, .s = string.concat("l", string.tostring(x))}\n %s\n trace("act%d", loc.x, loc.s)\n}\n' % (i, '\n '.join(c), i)

    def frag(self):
        r = self.rng
        k = r.randint(0, 23)
        v = r.choice(self.vs)
        key = r.choice(['"k%d"' % r.randint(0, 3), str(r.randint(0, 3)), 'string.concat("dyn", string.tostring(x))', '%d.5' % r.randint(0, 2)])
        if k == 0:
            return 'vs%d.put(%s, %s)' % (v, key, self.val())
        if k == 1:
            return 'trace("get", vs%d.get(%s), vs%d.size())' % (v, key, v)
        if k == 2:
            return 'neighbors.broadcast("%s", %s)' % (r.choice(TOPICS), self.val())
        if k == 3:
            return 'keep[%s] = function(y) { loc.x = loc.x + y\n return {.r = loc, .y = y} }' % key
        if k == 4:
            return 'if(type(keep[%s]) == "closure") { trace("kept", keep[%s](x)) }' % (key, key)
        if k == 5:
            return 'trace("heard", heard)'
        if k == 6:
            return 'trace("nb", neighbors.count(), neighbors.reduce(function(rid, d, acc) { return acc + d.distance }, 0))'
        if k == 7:
            return 'var VM = neighbors.map(function(rid, d) { return {.q = loc, .d = d.distance} })\n trace("map", VM.reduce(function(rid, d, acc) { acc[rid] = d\n return acc }, {}))'
        if k == 8:
            return r.choice(['sw[%d].join()', 'sw[%d].leave()', 'sw[%d].select(x %% 2)']) % r.randint(0, 1)
        if k == 9:
            return 'sw[%d].exec(function() { trace("in", swarm.id(), loc)\n keep["last"] = function(y) { return loc } })' % r.randint(0, 1)
        if k == 10:
            return 'trace("f", filter(%s, function(k, v) { return type(v) == "integer" }), map({.a = x, .b = loc}, function(k, v) { return {.k = k, .v = v} }))' % self.b(rtable(r, 2, 5))
        if k == 11:
            return 'objs[n %% %d] = {.name = string.concat("obj", string.tostring(n)), .get = function() { return self.name }, .next = objs[(n + 1) %% %d]}\n trace(objs[n %% %d].get())' % ((r.randint(2, 6),) * 3)
        if k == 12:
            return 'trace("rec", deep(%d, loc))' % r.randint(1, 12)
        if k == 13:
            return 'trace(string.sub(string.concat(%s, loc.s), %d), string.length(loc.s))' % (lit(rstr(r)), r.randint(0, 3))
        if k == 14:
            return 'var VC = clone(%s)\n VC.self0 = VC\n trace("cl", size(VC))' % self.b(rtable(r, 2, 4))
        if k == 15:
            return 'foreach(%s, function(k, v) { loc[k] = v })\n trace(loc)' % self.b(rtable(r, 2, 4))
        if k == 16:
            return 'trace("vf", size(vsdump(vs%d)))' % v
        if k == 17:
            return 'trace("ccall", ccall(function(y) { return {.y = string.concat(loc.s, y), .l = loc} }, "tail"))'
        if k == 18:
            return 'neighbors.kin().foreach(function(rid, d) { keep[rid] = d })\n trace("kin", neighbors.kin().count(), neighbors.nonkin().count())'
        dyn = 'string.concat("dy", string.tostring((x + %d) %% 4))' % r.randint(0, 3)
        if k == 20:
            return 'neighbors.listen(%s, mklisten(string.concat("pd", string.tostring(n))))' % dyn
        if k == 21:
            return 'neighbors.broadcast(%s, %s)' % (dyn, self.val())
        if k == 22:
            return r.choice(['neighbors.ignore(%s)' % dyn, 'neighbors.listen(%s, function(topic, v, rid) { trace("dynheard", topic, v, rid) })' % dyn])
        if k == 23:
            return 'vs%d.onconflict%s' % (v, r.choice(['(function(k, l, r) { keep[string.concat("cf", loc.s)] = l\n if(l.robot > r.robot) { return l } else { return r } })',
                                                       'lost(function(k, l) { keep[string.concat("cl", loc.s)] = l })']))
        return 'var VW = 0\n while(VW < %d) { loc[string.concat("w", string.tostring(VW))] = {.w = VW}\n VW = VW + 1 }\n trace(size(loc))' % r.randint(1, 40)

    def text(self):
        body = '\n '.join(self.init)
        acts = ''.join(self.acts)
        disp = '\n '.join('if(i == %d) { act%d(x) }' % (i, i) for i in range(self.nact))
        return self.b.text() + '''
function cnt(what) { if(keep[what] == nil) { keep[what] = 0 }
 keep[what] = keep[what] + 1 }
function mklisten(pre) { return function(topic, v, rid) { heard[string.concat(pre, topic)] = {.v = v, .rid = rid, .pre = pre} } }
function deep(k, t) { if(k == 0) { return {.end = t} }
 var mine = {.k = k, .s = string.concat("d", string.tostring(k))}
 var r = deep(k - 1, t)
 r[mine.s] = mine
 return r }
function vsdump(v) { var d = {}
 v.foreach(function(k, val, rob) { d[k] = val })
 return d }
function init() {
 %s
}
%sfunction step(i, x) {
 n = n + 1
 %s
}
init()
''' % (body, acts, disp)


def drive(rng, robots, nact, steps, loss=0, dup=0, delay=0, shuffle=0, extra=None, ids=None, first=0):
    """Commands of the host loop over an existing program 0: every step, deliver, process, update the
    neighbours, call step(action, x), send."""
    ids = ids or list(range(first, first + robots))
    cmds = ['netreset']
    for k in range(robots):
        cmds += ['new %d %d 0' % (first + k, ids[k]), 'run %d 400000' % (first + k)]
    for s in range(steps):
        for k in range(robots):
            v = first + k
            cmds += ['procin %d' % v, 'neigh %d' % v]
            for o in range(robots):
                if o != k and rng.random() < .8:
                    cmds.append('neigh %d %d %f %f %f' % (v, ids[o], 10 * (o + 1), .1 * o, .2))
            if extra:
                cmds += extra(rng, s, v)
            cmds.append('call %d step i:%d i:%d' % (v, rng.randrange(nact), rng.randint(0, 9)))
            cmds += ['procout %d' % v, 'fetch %d %s' % (v, rng.choice(['', '', '3']))]
        for k in range(robots):
            for o in range(robots):
                if o != k:
                    cmds.append('net %d %d %d %d %d %d %d' % (first + k, first + o, rng.getrandbits(30), loss, dup, delay, shuffle))
        if delay and s % 3 == 2:
            for o in range(robots):
                cmds.append('undelay %d %d' % (first + o, rng.getrandbits(30)))
    return cmds
