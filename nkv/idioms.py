"""Programs made of idioms: hand-written fragments with random holes, put together at random.

A fragment is "tags | globals --- statements".  The globals go to the top level;
the statements may stand anywhere (in functions, loops, coroutines), so they use
only what they declare themselves and globals.  $x is a fresh name, @i a small
integer, @I an interesting one, @s a string literal, @k a key, @v a value, @f an
exact float, @b 0 or 1, @2-5 a number from the range.  $BODY is another
fragment's statements; $COBODY the same where yielding is allowed; fragments
tagged y yield.  Fragments tagged err (may) fail."""
import random
from . import parse
from .values import quote

FRAGMENTS = r'''
coro gc | var $g;
function $f(a) {
    var o = mk();
    $g = nil;
    gc();
    print(tag(o), a);
    $BODY
    gc();
    return a + 1;
}
---
$g = coroutine($f, @i);
print(resume($g), $g);
gc();
===
coro gc | var $g;
function $f(a) {
    var o = mk();
    $g = 0;
    gc();
    var r = yield(a);
    print("never", r, o);
    return 1;
}
---
$g = coroutine($f, @i);
print(resume($g));
gc();
print(len(object()));
gc();
===
coro gc | var $g; var $h;
function $in(a) {
    var o = mk();
    $g = nil;
    $h = nil;
    gc();
    print(tag(o));
    var x = yield(a);
    print("in", x);
    return o;
}
function $out(a) {
    var p = mk();
    $h = coroutine($in, a);
    var c = $h;
    print(resume(c, 0));
    gc();
    print(tag(p));
    var q = resume(c, 2);
    gc();
    print(tag(q), is_finished(c));
    return tag(p);
}
---
$g = coroutine($out, @i);
print(resume($g, 1));
gc();
===
coro | function $gen(n) {
    for(var i = 0; i < n; i++) {
        var x = yield(i);
        print("got", x);
        $COBODY
    }
    return "end";
}
---
{
    var c = coroutine($gen, @1-4);
    var k = 0;
    while(!is_finished(c)) {
        print(resume(c, k++));
    }
    print(resume(c), resume(c, 3), is_finished(c));
}
===
coro | function $gen(a, b) {
    var r = a + yield(b) * 2 - yield(a);
    print(r);
    return yield(r) + r;
}
---
{
    var c = coroutine($gen, @i, @i);
    print(resume(c, 100));
    print(resume(c, @i));
    print(resume(c, @i));
    print(is_finished(c));
    print(resume(c, @i), is_finished(c));
}
===
coro | function $three(a, b, c) { print(a, b, c); return a * 100 + b * 10 + c; }
function $gen(n) {
    var l = n * 2;
    print($three(n, yield(1), yield(2)), l);
    print($three(yield(3), l, yield(4)) + $three(yield(5), yield(6), n));
    return l;
}
---
{
    var c = coroutine($gen, @i);
    for(var i = 0; i < 9; ++i) print(resume(c, i), is_finished(c));
}
===
coro | function $deep(n) {
    var l = n + 1;
    if(n <= 0) {
        var q = yield("deep");
        return q + l;
    }
    var r = $deep(n - 1);
    var s = yield(r);
    return r + l + s;
}
function $body(n) { var z = $deep(n); print("z", z); return $deep(1); }
---
{
    var c = coroutine($body, @1-4);
    var n = 0;
    while(n < 12 && !is_finished(c)) { print(resume(c, n)); n = n + 1; }
}
===
coro | function $walk(t) {
    if(t == nil) return 0;
    $walk(t.l);
    yield(t.v);
    $walk(t.r);
    return 0;
}
function $put(t, v) {
    if(t == nil) { var n = object(); n.v = v; return n; }
    if(v < t.v) t.l = $put(t.l, v); else t.r = $put(t.r, v);
    return t;
}
---
{
    var t = nil;
    t = $put(t, @i); t = $put(t, @i); t = $put(t, @i); t = $put(t, @i);
    var c = coroutine($walk, t);
    var v = resume(c);
    while(!is_finished(c)) { print(v); v = resume(c); }
}
===
coro | function $worker(name, n) {
    var t = 0;
    while(t < n) {
        t = t + 1;
        print(name, t);
        yield(t);
        $COBODY
    }
    return name;
}
---
{
    var l = object();
    var n = @2-4;
    for(var i = 0; i < n; i++) l[i] = coroutine($worker, "w" + i, i + 1);
    var live = n;
    while(live > 0) {
        live = 0;
        for(var j = 0; j < n; j++) {
            if(!is_finished(l[j])) { resume(l[j]); live = live + 1; }
        }
    }
    for(var k = 0; k < n; k++) print(is_finished(l[k]), resume(l[k]));
}
===
coro | function $inner(a) { var x = yield(a + 1); yield(x); return x * 2; }
function $outer(a) {
    var c = coroutine($inner, a);
    var r = yield(resume(c));
    print("outer", r);
    r = yield(resume(c, r));
    return resume(c, r) + a;
}
---
{
    var c = coroutine($outer, @i);
    print(resume(c, 1)); print(resume(c, 2)); print(resume(c, 3)); print(resume(c, 4));
    print(is_finished(c));
}
===
coro | function $early(n) {
    for(var i = 0; i < 5; i++) {
        var a = object();
        { var b = i; { if(b == n) return b * 10; } }
        yield(i);
    }
    return 77;
}
---
{
    var c = coroutine($early, @0-6);
    var i = 0;
    do { print(resume(c)); i++; } while(!is_finished(c) && i < 9);
    print(i);
}
===
coro | function $swap(a) { while(a < 3) { a = yield(a) + a; } return a; }
---
{
    var c = coroutine($swap, 0); var d = coroutine($swap, 1);
    var x = resume(c); var y = resume(d);
    for(var i = 0; i < 4; i++) { x = resume(c, 1); y = resume(d, i); print(x, y, is_finished(c), is_finished(d)); }
}
===
coro objs | function $m(self, n) { self.count = self.count + n; var r = yield(self.count); self.last = r; return self; }
---
{
    var o = object();
    o.count = @i;
    var c = coroutine($m, o, @i);
    print(resume(c, "x"), o.count);
    var p = resume(c, @s);
    print(p == o, o.last, len(o));
}
===
coro objs | function $body(d, x) { yield(d); return x; }
---
{
    var f = object();
    f._exec = $body;
    f._data = @v;
    var c = coroutine(f, @v);
    print(resume(c), resume(c), resume(c));
}
===
coro cb | function $y(a) { var r = yield(a); return r + 1; }
function $run(a) { var c = coroutine($y, a); var x = resume(c); var y = resume(c, 10); print(x, y, is_finished(c)); return y; }
---
print(call($run, @i));
===
coro cb | function $h(a) { return a * 2 + 1; }
function $y(a) { var r = call($h, a); yield(r); print("back"); return call($h, r); }
---
{
    var c = coroutine($y, @i);
    print(resume(c), resume(c), is_finished(c));
}
===
coro err | var $pc = nil;
function $child(n) { print("child"); if(@b) resume($pc, 3); return n; }
function $par(n) { var c = coroutine($child, n); var r = resume(c); print("r", r); yield(r); return 2; }
---
$pc = coroutine($par, @i);
print(resume($pc));
print(resume($pc));
===
coro gc | function $keep(a) { var l = object(); l.o = mk(); l.k = a; a = 0; yield(l.k); yield(tag(l.o)); return l; }
---
{
    var c = coroutine($keep, mk());
    print(tag(resume(c)));
    gc();
    print(resume(c));
    gc();
    if(@b) resume(c);
    gc();
    c = nil;
    gc();
}
===
coro gc | function $cyc(o) { o.me = o; o.n = mk(); yield(1); yield(2); return 3; }
---
{
    var o = object();
    o.c = coroutine($cyc, o);
    print(resume(o.c));
    gc();
    print(len(o), resume(o.c));
    o = nil;
    gc();
}
gc();
===
coro gc | function $a(c) { var o = mk(); yield(0); gc(); print(tag(o)); return 1; }
function $b(n) { var p = mk(); var c = coroutine($a, 0); resume(c); gc(); resume(c); gc(); print(tag(p)); yield(5); return tag(p); }
---
{
    var c = coroutine($b, 1);
    resume(c);
    gc();
    print(resume(c));
}
gc();
===
coro err | var $sc = nil;
function $self(n) { print("self", n); if(@b) resume($sc); print("maybe"); yield(1); return 1; }
---
$sc = coroutine($self, @i);
print(resume($sc));
$BODY
===
coro err | function $bad(n) {
    yield(n);
    var o = object();
    print("before");
    var x = n / 0;
    print("after", x);
    return 1;
}
---
{
    var c = coroutine($bad, @i);
    print(resume(c));
    print(resume(c));
    print("never");
}
===
coro err | function $fin(n) { return n; }
---
{
    var c = coroutine($fin, @v);
    print(resume(c), resume(c), is_finished(c));
    if(@b) { yield(3); print("only in coroutines"); }
    if(@b) { print(resume(@i)); }
    print(is_finished(object()));
}
===
y coro | ---
print(yield(@v));
===
y coro | ---
{
    var a = @i;
    { var b = yield(a); { var c = yield(b); print(a, c); } }
}
===
y coro | ---
for(var i = 0; i < 2; i++) { if(yield(i)) break; print(i); }
===
y coro objs | ---
{
    var o = object();
    o[yield(1)] = yield(2);
    print(len(o), o[0], o[1], o[2]);
    o.x = 1;
    o.x = o.x + yield(o);
    print(o.x);
}
===
y coro gc | ---
{
    var o = mk();
    yield(o);
    gc();
    print(tag(o));
}
===
gc native | ---
{
    var a = mk();
    var b = mk();
    a.n = b; b.n = a;
    a = nil;
    gc();
    print(tag(b), tag(b.n));
    b = nil;
    gc();
}
gc();
===
gc native | ---
{
    var t = object();
    t[mk()] = @v;
    t[mk()] = mk();
    gc();
    print(len(t));
    t = object();
    t[object()] = 5;
    gc();
    print(len(t));
}
gc();
===
gc native | ---
{
    var t = object();
    var k = mk();
    k.back = t;
    t[k] = 7;
    var l = object();
    l[k] = k;
    k = 0;
    gc();
    print(len(t), len(l));
    t = nil;
    gc();
    print(len(l));
    l = nil;
    gc();
}
gc();
===
gc native | ---
{
    var a = mk();
    setref(a, mk());
    var b = mk();
    setref(b, a);
    a = nil;
    gc();
    print(tag(getref(b)), tag(getref(getref(b))));
    setref(b, nil);
    gc();
    print(getref(b));
}
gc();
===
gc native | ---
{
    var a = mk();
    setref(a, a);
    a.x = mk();
    setref(a.x, a);
    gc();
    print(tag(getref(a.x)));
    a = 1;
    gc();
}
===
gc native | function $two(a, b) { return tag(a) * 10 + b; }
---
print($two(mk(), gc()), tag(mk()) + gc());
gc();
print(any2(mk(), gc()), tag(any2(gc(), mk())));
gc();
===
gc native | ---
{
    var o = object();
    o.a = mk(); o.b = mk();
    o.a = o.b;
    gc();
    o.b = nil;
    gc();
    print(tag(o.a), len(o));
    o.a = gc();
    print(o.a);
    gc();
}
===
gc native | function $rec(n) {
    var o = mk();
    if(n > 0) $rec(n - 1); else gc();
    gc();
    print(tag(o));
    return 0;
}
---
$rec(@1-4);
gc();
===
gc native | ---
{
    var h = hold(mk());
    var t = tag(h);
    var x = h;
    h = nil;
    x = nil;
    gc();
    var o = hold(hold(object()));
    o.keep = mk();
    drop(o);
    print(hcount(o));
    gc();
    drop(o);
    o = 0;
    gc();
}
===
gc native | ---
{
    for(var i = 0; i < @2-6; i++) {
        var o = mk();
        var l = object();
        l.o = o;
        if(i == 1) { gc(); print(tag(l.o)); }
    }
    gc();
}
gc();
===
gc strs | ---
{
    var o = object();
    for(var i = 0; i < @3-9; i++) o["k" + i] = "v" + (i * 3);
    gc();
    var q = "";
    for(var j = 0; j < 9; j++) { q = q + o["k" + j] + ","; gc(); }
    print(q, len(o));
}
===
gc strs | ---
{
    var a = "x" + @i;
    var b = "y" + @i;
    a = nil;
    gc();
    var c = "y" + @i; var d = "z" + @i + b;
    gc();
    print(b, c, d, b == c, b === c);
}
===
gc strs | function $mkname(n) { var s = "n"; while(n > 0) { s = s + n; n = n - 1; } return s; }
---
{
    var o = object();
    o[$mkname(3)] = 1; o[$mkname(2)] = 2;
    gc();
    print(o[$mkname(3)], o["n21"], o.n321, o[$mkname(1)]);
    o[$mkname(3)] = nil;
    gc();
    print(len(o), o["n" + 321]);
}
===
gc strs coro | var $o = object();
function $acc(s) { while(len($o) < 9) { s = s + yield(s); gc(); } return s; }
---
{
    var c = coroutine($acc, "a");
    print(resume(c, "-"), resume(c, "b"));
    gc();
    print(resume(c, "c" + @i), resume(c, @s));
}
===
gc native | function $pass(o) { gc(); return o; }
---
{
    var o = $pass(mk());
    gc();
    print(tag($pass(o)), tag($pass(mk())));
    gc();
}
===
gc objs | var $g;
---
$g = object();
$g.next = object();
$g.next.next = $g;
$g.next.v = mk();
gc();
print(tag($g.next.v), $g.next.next == $g);
$g = $g.next;
$g.next = nil;
gc();
print(tag($g.v));
$g = nil;
gc();
===
gc cb native | function $f(o) { gc(); o.x = mk(); gc(); return o; }
---
{
    var o = call($f, mk());
    gc();
    print(tag(o), tag(o.x));
}
gc();
===
objs | ---
{
    var o = object();
    var b = @i;
    for(var i = 0; i < 5; i++) o[b + i * 16] = i;
    o[b + @0-4 * 16] = nil;
    o[b + @0-4 * 16] = "again";
    o[b + @0-4 * 16] = nil;
    var n = 0;
    for(var j = 0 - 1; j < 6; j++) { if(o[b + j * 16] != nil) n = n + 1; print(o[b + j * 16]); }
    print(len(o), n);
}
===
objs | ---
{
    var o = object();
    o[1] = "int"; o[1.0] = "float"; o["1"] = "string"; o[nil] = "nil";
    print(o[1], o[1.0], o["1"], o[nil], len(o));
    o[1.0] = nil;
    print(o[1], o[1.0], o["1"], len(o));
    o[0] = 0; o[""] = 1; o[0.0] = 2;
    print(o[0], o[""], o[0.0], len(o));
    o[@k] = @v;
    print(o[@k], len(o));
}
===
objs | function $f(a) { return a; }
---
{
    var a = object(); var b = object(); var t = object();
    t[a] = "a"; t[b] = "b"; t[$f] = "f"; t[print] = "p";
    print(t[a], t[b], t[$f], t[print], t[object()], len(t));
    t[a] = nil; t[$f] = nil;
    print(t[a], t[b], t[$f], t[print], len(t));
    t[t] = t;
    print(t[t] == t, t[t][t][b], len(t));
}
===
objs | function $side(s, v) { print(s); return v; }
---
{
    var o = object(); var p = object();
    o.p = p;
    $side("obj", o)[$side("key", "q")] = $side("val", @v);
    o.p[$side("k", 1) + $side("k2", 2)] = $side("v", 3) + len($side("o", p));
    print(o.q, p[3], $side("g", o)[$side("h", "q")]);
    $side("inc", p)[$side("kk", 3)]++;
    print(p[3]--, ++p[3], p[3]);
}
===
objs | ---
{
    var o = object();
    o.a = object(); o.a.b = object(); o.a.b.c = @v;
    var q = o.a;
    q.b.d = @v;
    print(o.a.b.c, o["a"]["b"].d, len(o.a.b), o.a == q, q.b == o.a);
    o.a = nil;
    print(q.b.c, len(o), o.a);
}
===
objs | ---
{
    var s = object();
    s.n = 0;
    for(var i = 0; i < @2-6; i++) { s[s.n++] = i * i; }
    while(s.n > 0) { print(s[--s.n]); s[s.n] = nil; }
    print(len(s));
}
===
objs | ---
{
    var a = object();
    var n = 5;
    a[0] = @i; a[1] = @i; a[2] = @i; a[3] = @i; a[4] = @i;
    for(var i = 0; i < n; i++)
        for(var j = 0; j < n - 1 - i; j++)
            if(a[j] > a[j + 1]) { var t = a[j]; a[j] = a[j + 1]; a[j + 1] = t; }
    print(a[0], a[1], a[2], a[3], a[4], len(a));
}
===
objs | function $fill(o, n, v) { for(var i = 0; i < n; i++) o[i] = v; return o; }
---
{
    var o = $fill(object(), @5-25, @v);
    print(len(o));
    $fill(o, @0-20, nil);
    print(len(o), o[0], o[7], o[15], o[16]);
    $fill(o, @0-20, "x");
    print(len(o), o[0], o[7], o[15], o[16]);
}
===
objs | ---
{
    var o = object();
    o.x = nil;
    print(len(o));
    o.x = 1;
    o.y = o.x;
    o.x = nil; o.x = nil;
    print(len(o), o.x, o.y);
    o.x = 0;
    print(len(o), o.x);
    o["x"] = "";
    print(len(o), o.x == "", o.x === 0);
}
===
objs calls | var $padd;
function $Point(x, y) { var p = object(); p.x = x; p.y = y; p.add = $padd; p.len2 = function(self) { return self.x * self.x + self.y * self.y; }; return p; }
$padd = function(self, q) { return $Point(self.x + q.x, self.y + q.y); };
---
{
    var a = $Point(@i, @i); var b = $Point(@i, @i);
    var c = a->add(b)->add(a);
    print(c.x, c.y, c->len2(), a->len2() + b->len2());
    print(c.len2(a), c.add == $padd);
}
===
calls | function $ack(m, n) { if(m == 0) return n + 1; if(n == 0) return $ack(m - 1, 1); return $ack(m - 1, $ack(m, n - 1)); }
---
print($ack(1, @0-3), $ack(2, 1));
===
calls | function $fib(n) { if(n < 2) return n; return $fib(n - 1) + $fib(n - 2); }
---
print($fib(@0-6));
===
calls | function $hanoi(n, a, b, c) { if(n == 0) return 0; var x = $hanoi(n - 1, a, c, b); print(a + b); return x + 1 + $hanoi(n - 1, c, b, a); }
---
print($hanoi(@1-3, "a", "b", "c"));
===
calls | var $odd = nil;
function $even(n) { if(n == 0) return "even"; return $odd(n - 1); }
$odd = function(n) { if(n == 0) return "odd"; return $even(n - 1); };
---
print($even(@0-9), $odd(@0-9));
===
calls | function $eight(a, b, c, d, e, f, g, h) { var s = a; s = s + "" + b + c + d + e + f + g + h; print(s); return h; }
---
print($eight("s", 1, 2.5, 3, @i, "x", 7, @v));
===
calls | function $none() { }
function $none2(a) { if(a) return a; }
---
print($none(), $none2(0), $none2(@v), $none() + 1);
$none();
===
calls | function $dep(n) {
    var a = n; var b = a * 2;
    { var c = a + b; { var d = c + 1; for(var i = 0; i < 3; i++) { var e = d + i; while(1) { var f = e; if(f > n) { if(i == @0-3) return f; break; } break; } } } }
    return a + b;
}
---
print($dep(@i), $dep(@i));
===
calls | function $add(a) { var f = object(); f._data = a; f._exec = function(x, y) { return x + y; }; return f; }
---
{
    var f = $add(@i); var g = $add(@s);
    print(f(@i), g(@v), f(f(1)), g(f(1)));
    var h = object();
    h._exec = f;
    print(h(@i));
    h._exec = print; h._data = "data";
    h(1, 2);
    h();
}
===
calls | function $two(a, b, c) { print(a, b, c); return c; }
---
{
    var f = object(); var g = object();
    f._exec = $two; f._data = "f";
    g._exec = f; g._data = "g";
    print(g(@v));
    g._data = nil; f._data = 0;
    g(1, 2);
}
===
calls | function $chain(n, f) { var o = f; for(var i = 0; i < n; i++) { var q = object(); q._exec = o; o = q; } return o; }
function $leaf(a) { return a + 1; }
---
print($chain(@0-9, $leaf)(@i));
===
calls err | function $chain2(n, f) { var o = f; for(var i = 0; i < n; i++) { var q = object(); q._exec = o; o = q; } return o; }
function $leaf2(a) { return a + 1; }
---
print($chain2(@8-11, $leaf2)(@i));
===
calls | function $mk1(n) { if(n) return function(a) { return a * 2; }; return function(a) { return function(b) { return b + 1; }; }; }
---
print($mk1(1)(@i), $mk1(0)(@i)(@i), (function(a, b) { return a - b; })(@i, @i));
===
calls | ---
{
    var o = object();
    o.f = function(a) { return a + 1; };
    o.g = function(self, a) { self.n = a; return self.f(a) * 2; };
    print(o.f(@i), o->g(@i), o.n, o.g(o, @i), o.n);
    var t = object();
    t[0] = o.f; t[1] = o;
    print(t[0](@i), t[1].f(@i), t[1]->g(@i));
}
===
calls | function $swap(a, b) { var t = a; a = b; b = t; print(a, b); return a; }
---
{
    var a = @v; var b = @v;
    $swap(a, b);
    print(a, b, $swap(b, $swap(a, @v)));
}
===
calls | var $depth = 0;
function $nest(f, n) { $depth = $depth + 1; if(n == 0) return f($depth); return $nest(f, n - 1) + n; }
---
print($nest(function(d) { return d * 100; }, @0-4), $depth);
===
calls cb | function $inner(a, b) { print("inner", a, b); return a + b; }
function $mid(a) { var x = @i; var r = call($inner, a, x); print("mid", r, x); return r * 2; }
function $outer(a) { var y = @i; var r = call($mid, a + 1); print("outer", r, y); return r + call($inner, y, r); }
---
print(call($outer, @i), @i + call($inner, 1, 2) * 2);
===
calls cb | function $rec(n) { if(n <= 0) return 0; return n + call($rec, n - 1); }
---
print($rec(@1-6), call($rec, @0-5));
===
calls cb coro | function $dbl(a) { return a * 2; }
function $g(n) { for(var i = 0; i < n; i++) yield(call($dbl, i)); return call($dbl, n); }
---
{
    var c = coroutine($g, @1-4);
    while(!is_finished(c)) print(resume(c));
}
===
cb err | function $bad(a) { print("bad", a); var x = a - nil; return x; }
function $via(a) { var l = a; call($bad, l); print("never"); return 1; }
---
if(@b) { print(call($via, @s)); }
print("after");
===
cb err native | function $f(a) { fail("stop" + a); print("never"); return a; }
---
{
    var x = @i;
    if(@b) x = call($f, x);
    if(@b) $f(x);
    print(x);
}
===
ctl | ---
{
    var t = 0;
    for(var i = 0; i < @2-5; i++) {
        for(var j = 0; j < @2-5; j++) {
            var q = i * 10 + j;
            if(j == @1-4) break;
            var k = 0;
            while(1) { var z = k; if(z >= i) break; { var zz = z; if(zz == @1-3) break; } k++; }
            t = t + k;
            print(q, k);
        }
        if(t > @5-20) break;
    }
    print(t);
}
===
ctl | ---
{
    var i = @0-9;
    if(i < 3) if(i < 1) print("a"); else print("b"); else if(i < 6) print("c"); else print("d");
    if(i > 4) { } else print("small");
    if(i > 4) print("big"); else { }
    { }
    { { } { } }
}
===
ctl | ---
{
    var x = @i;
    {
        var y = x;
        var x = "inner";
        print(x, y);
        { var x = y + 1; print(x); x = 5; print(x); }
        x = x + "!";
        print(x);
    }
    print(x);
    for(var x = 0; x < 2; x++) { var y = x; print(x, y); }
    for(x = 7; x < 9; x++) print(x);
    print(x);
}
===
ctl | ---
{
    var n = 0;
    do {
        var d = n;
        n++;
        if(n == @1-4) break;
        { var e = d; if(e > 2) break; }
        print(d);
    } while(n < @1-6);
    do print("once"); while(0);
    while(0) print("never");
    for(var i = 9; i < 3; i++) print("never");
    print(n);
}
===
ctl | ---
{
    var a; var b = a;
    print(a, b);
    for(var i = 0; i < 3; i++) { var c; print(c); c = i + 1; }
    var d = (a = 3) + a;
    print(a, d, a == (a = 4), (a = 5) == a);
}
===
ctl | ---
{
    var i = @i;
    print(i++ + i, i++ * 2 - --i, -i--, !i++, i);
    print(- -i, !!i, -(i = 3), i-- - --i, ++i + i++);
}
===
ctl | function $t(s, v) { print(s); return v; }
---
if($t("a", @b) && $t("b", @b) || $t("c", @b)) print("yes"); else print("no");
print($t(1, 2) + $t(2, 3) * $t(3, 4) - $t(4, 5), $t(5, 1) < $t(6, 2) == $t(7, 1));
===
ctl | function $big(n) {
    while(n > 0) { { { { { { if(n == @1-3) return n; var a = n; { n--; var b = a; if(b == 77) break; } } } } } } }
    return "done";
}
---
print($big(@0-5), $big(@0-5));
===
ctl | function $find(o, v) {
    for(var i = 0; i < len(o); i++) {
        var x = o[i];
        if(x == v) { var found = i; return found; }
    }
    return 0 - 1;
}
---
{
    var o = object();
    o[0] = @i; o[1] = @s; o[2] = @i; o[3] = @f;
    print($find(o, o[2]), $find(o, @i), $find(o, "nothing"), $find(object(), 1));
}
===
ctl | ---
{
    var f = function(n) { if(n > 3) { return "big"; } else { return "small"; } };
    print(f(@0-6), f(@0-6));
    function $loc(a) { var b = a; for(var i = 0; i < 3; i++) { var c = i; b = b + c; } return b; }
    print($loc(@i) + $loc(1));
}
===
ctl | ---
{
    var n = @3-30; var c = 0;
    while(n != 1 && c < 12) { if(n % 2 == 0) n = n / 2; else n = 3 * n + 1; c++; }
    print(n, c);
}
===
ctl | function $gcd(a, b) { while(b != 0) { var t = a % b; a = b; b = t; } return a; }
---
print($gcd(@1-99, @1-99), $gcd(@1-99, @1-99));
===
ctl | ---
{
    var a = 1; var b = 2; var c = 3; var d = 4; var e = 5;
    { var f = a + b; { var g = f + c; { var h = g + d; { var i = h + e; { var j = i + a; print(j, i, h, g, f); a = j; } b = i; } c = h; } } }
    print(a, b, c, d, e);
}
===
strs | ---
{
    var s = "";
    for(var i = 0; i < @2-6; i++) s = s + @s + i;
    print(s, s == s + "", "a" "b" "c" == "abc");
    s = "t\tn\nq\"r\re\\" + "x";
    print(s, s > "t", s < "u");
    print("1" + 2, 1 + "2", "1.5" + 0, 0.5 + "2", "" + nil, "x" + 1.5);
}
===
strs | ---
{
    var o = object(); var s = @s;
    o[s] = 1; o[s + ""] = o[s] + 1; o["" + s] = o[s] + 1;
    print(o[s], len(o));
    o["a" + 1] = "x"; o.a1 = o.a1 + "y";
    print(o["a1"], o["a" + "1"], len(o));
    print("10" == 10, 10 == "10", "010" == 10, 10 == "010", "a" == "A", "" == 0);
}
===
strs | ---
{
    var s = "x"; var t = s;
    for(var i = 0; i < 6; i++) s = s + s;
    print(s, t, s == t, s > t);
    t = s;
    s = s + "y";
    print(t == s, t < s);
}
===
nums | ---
{
    var a = @I; var b = @I;
    print(a + b, a - b, a * b, -a, a < b, a == b, a > b);
    print(a + 1, a - 1, a * 2, a / 3, a % 7, a / 1, b % 2);
    print(2147483647 + 1, -2147483647 - 2, 65536 * 65536, 46341 * 46341);
}
===
nums | ---
{
    var f = @f; var i = @i;
    print(f + i, i + f, f * 2, i * f, f - i, i - f, f == i, i == f, f < i, -f);
    print(f + 0.5, f * 0.5, f / 2, f++, --f, f);
}
===
objs ctl | ---
{
    var m = object(); var n = @2-3;
    for(var i = 0; i < n; i++) { m[i] = object(); for(var j = 0; j < n; j++) m[i][j] = i * n + j; }
    var t = 0;
    for(var k = 0; k < n; k++) { t = t + m[k][k]; m[k][k] = m[k][n - 1 - k]; }
    print(t, m[0][0], m[1][1], len(m), len(m[1]));
}
===
objs calls | function $set(o, k, v) { o[k] = v; return o; }
---
print(len($set($set($set(object(), 1, 2), "1", 3), 1, 4)), $set(object(), @k, @v)[@k]);
===
objs | ---
{
    var q = object(); q.h = 0; q.t = 0;
    for(var i = 0; i < @2-5; i++) { q[q.t] = i; q.t = q.t + 1; }
    while(q.h < q.t) { print(q[q.h]); q[q.h] = nil; q.h++; if(q.h == 2) { q[q.t++] = "extra"; } }
    print(len(q));
}
===
native | ---
{
    var o = object(); var x = mk();
    print(ii(@i, 2), is(1, @s), z(), fl(@f), any2(o, x) == x, ob(o) == o, tag(x));
    print(bump(), bump(), count(1, 2), chk(1, "a"));
    print(any2(nil, print) == print, any2(1, any2(2, any2(3, @v))));
}
===
native err | ---
{
    var q = @0-9;
    if(q == 0) print(ii(1, "2"));
    if(q == 1) print(ii(1));
    if(q == 2) print(fl(1));
    if(q == 3) print(tag(object()));
    if(q == 4) print(ob(nil));
    if(q == 5) print(tag(mk1()));
    if(q == 6) print(count(1));
    if(q == 7) print(chk("a", "b"));
    if(q == 8) print(z(1));
    print("fine");
}
===
err | ---
{
    var o = object(); var q = @0-11;
    if(q == 0) o = o + 1;
    if(q == 1) o.x.y = 1;
    if(q == 2) print(o.x.y);
    if(q == 3) o();
    if(q == 4) o.f(1);
    if(q == 5) o->f(1);
    if(q == 6) print(1 % 0);
    if(q == 7) print(len(1));
    if(q == 8) print(nil - 1);
    if(q == 9) o.x++;
    if(q == 10) print(1 / (q - 10));
    print("fine", q);
}
===
err | function $p(a, b) { return a + b; }
---
{
    var q = @0-7;
    for(var i = 0; i < 3; i++) {
        print(i);
        if(q == i) $p(1);
        if(q == i + 3) print($p(object(), i));
    }
    if(q == 6) $p(1, 2, 3);
}
===
err | var $g = 0;
function $deep(n) {
    $g = n;
    if(n == 0) { return 1 / n; }
    var r = $deep(n - 1);
    $g = 100;
    return r;
}
---
if(@b) {
    print($deep(@0-4));
}
print($g);
===
wrap | function $w(a) {
    var before = a;
    $BODY
    return before;
}
---
print($w(@v));
===
wrap | ---
for(var $i = 0; $i < 2; $i++) {
    var keep = $i;
    $BODY
    print(keep);
}
===
wrap coro | function $w(a) {
    var x = a;
    $COBODY
    var y = yield(x);
    $COBODY
    return y;
}
---
{
    var c = coroutine($w, @v);
    for(var i = 0; i < 9 && !is_finished(c); i++) print(resume(c, i));
}
===
wrap cb | function $w(a) {
    $BODY
    return a;
}
---
print(call($w, @v));
===
wrap | ---
if(@b) {
    $BODY
} else {
    $BODY
}
===
wrap calls | function $rec(n) {
    var m = n;
    if(n > 0) $rec(n - 1); else {
        $BODY
    }
    print(m);
    return m;
}
---
$rec(@1-3);
===
wrap | ---
while(1) {
    var $a = 1;
    {
        var $b = 2;
        $BODY
        print($a, $b);
        break;
    }
}
===
wrap coro | function $gen(n) { while(n > 0) { yield(n); n--; } return 0; }
---
{
    var c = coroutine($gen, @1-3);
    while(resume(c)) {
        $BODY
    }
    print(is_finished(c));
}
'''

INTS = [0, 1, 2, 3, 2147483647, 2147483646, 65535, 65536, 1000000, 46340, 255, 1 << 30]


class Fragment:
    def __init__(self, text):
        tags, body = text.split("|", 1)
        self.tags = set(tags.split())
        g, s = body.split("---", 1) if "---" in body else (body, "")
        self.g = [l for l in g.strip("\n").split("\n") if l.strip()]
        self.s = [l for l in s.strip("\n").split("\n") if l.strip()]
        if self.g:
            self.g[0] = self.g[0].lstrip()


def load():
    out = []
    for t in FRAGMENTS.split("\n===\n"):
        t = t.strip("\n")
        if t:
            out.append(Fragment(t))
    return [f for f in out if f.s]


ALL = load()
WEIGHTS = {
    "core": dict(ctl=4, nums=1, strs=1, calls=1, objs=1, wrap=2),
    "calls": dict(calls=5, cb=2, ctl=1, wrap=2),
    "coro": dict(coro=5, y=3, wrap=1.5, calls=0.5, ctl=0.3),
    "objects": dict(objs=5, strs=1, wrap=1, ctl=0.3),
    "gc": dict(gc=5, wrap=2, coro=0.5, objs=0.3),
    "strings": dict(strs=5, objs=0.5, wrap=1, ctl=0.3),
    "numbers": dict(nums=4, ctl=1),
    "errors": dict(err=3, wrap=3, ctl=0.7, coro=0.5, cb=0.5, calls=0.4),
    "native": dict(native=4, cb=4, calls=0.6, wrap=1, coro=0.3),
    "mixed": dict(ctl=1, calls=1, coro=1, gc=1, objs=1, strs=1, nums=0.3, native=1, cb=1, wrap=2, y=1, err=0.15),
}


class Maker:
    def __init__(self, r, profile, errors=None):
        self.r, self.w = r, WEIGHTS[profile]
        self.errors = "err" in self.w if errors is None else errors
        self.n = 0
        self.glob = []

    def hole(self, k):
        r = self.r
        if k == "i":
            return str(r.randrange(0, 10))
        if k == "I":
            return str(r.choice(INTS))
        if k == "b":
            return str(r.randrange(2))
        if k == "s":
            return quote("".join(r.choice("abc19 _") for _ in range(r.randrange(0, 5))))
        if k == "f":
            return "%d.%s" % (r.randrange(0, 20), r.choice(["0", "5", "25", "125"]))
        if k == "k":
            return r.choice(["1", "1.0", '"1"', "17", "33", '"a"', "0", '""', "2.5"])
        if k == "v":
            return self.hole(r.choice("iiisfb")) if r.random() < 0.93 else "nil"
        raise KeyError(k)

    def fill(self, lines, names, co, depth):
        out = []
        for l in lines:
            t = l.strip()
            pad = l[:len(l) - len(l.lstrip())]
            if t in ("$BODY", "$COBODY"):
                if depth > 0:
                    out += [pad + x for x in self.piece(depth - 1, t == "$COBODY")]
                continue
            s, i = "", 0
            while i < len(l):
                ch = l[i]
                if ch == "$":
                    j = i + 1
                    while j < len(l) and (l[j].isalnum() or l[j] == "_"):
                        j += 1
                    x = l[i + 1:j]
                    if x not in names:
                        self.n += 1
                        names[x] = "%s_%d" % (x, self.n)
                    s += names[x]
                    i = j
                elif ch == "@":
                    if l[i + 1].isdigit():
                        j = i + 1
                        while l[j].isdigit():
                            j += 1
                        k = j + 1
                        while k < len(l) and l[k].isdigit():
                            k += 1
                        s += str(self.r.randrange(int(l[i + 1:j]), int(l[j + 1:k]) + 1))
                        i = k
                    else:
                        s += self.hole(l[i + 1])
                        i += 2
                else:
                    s += ch
                    i += 1
            out.append(s)
        return out

    def choose(self, co):
        fs, ws = [], []
        for f in ALL:
            if "err" in f.tags and not self.errors:
                continue
            if "y" in f.tags and not co:
                continue
            w = max([self.w.get(t, 0) for t in f.tags if t not in ("err",) or "err" in self.w] or [0])
            if "err" in f.tags:
                w = self.w.get("err", 0)
            if "y" in f.tags:
                w *= 2.5
            if w:
                fs.append(f)
                ws.append(w)
        return self.r.choices(fs, ws)[0]

    def piece(self, depth, co):
        f = self.choose(co)
        names = {}
        g = self.fill(f.g, names, False, depth)
        self.glob += g
        return self.fill(f.s, names, co, depth)


def source(r, profile, pieces=4, depth=2, errors=None):
    m = Maker(r, profile, errors)
    lines = []
    for _ in range(pieces):
        m.glob = []
        s = m.piece(depth, False)
        lines += m.glob + s
    return "\n".join(lines) + "\n"


def make(r, profile, size=4, units=1, errors=None):
    """A Prog; units may be several scripts."""
    p = parse.Prog()
    p.profile = profile
    for u in range(units):
        p.unit("t.nks" if units == 1 else "u%d.nks" % u, rename(source(r, profile, size, r.randrange(0, 4), errors), u))
    return p


def rename(src, u):
    """Names of different units differ."""
    if u == 0:
        return src
    import re
    return re.sub(r"\b([A-Za-z]\w*)_(\d+)\b", r"\1_%d_\2" % u, src)
