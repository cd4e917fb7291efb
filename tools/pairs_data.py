# ---- time of reading
differ("def f(d, k):\n    d = {}\n    for x in k:\n        d[x] = g(x)\n    v = d[k[0]]\n    d[k[0]] = 5\n    return v, d",
       "def f(d, k):\n    d = {}\n    for x in k:\n        d[x] = g(x)\n    d[k[0]] = 5\n    v = d[k[0]]\n    return v, d")
differ("def f(k):\n    d = [g(x) for x in k]\n    v = d[0]\n    d[0] = 5\n    return v, d",
       "def f(k):\n    d = [g(x) for x in k]\n    d[0] = 5\n    v = d[0]\n    return v, d")
differ("def f(k):\n    d = [1, 2]\n    v = d[0]\n    d[0] = 5\n    return v, d",
       "def f(k):\n    d = [1, 2]\n    d[0] = 5\n    v = d[0]\n    return v, d")
differ("def f(k):\n    d = {}\n    for x in k:\n        d[x] = g(x)\n    b = k[0] in d\n    d[k[0]] = 1\n    return b",
       "def f(k):\n    d = {}\n    for x in k:\n        d[x] = g(x)\n    d[k[0]] = 1\n    b = k[0] in d\n    return b")
differ("def f(k):\n    d = [g(x) for x in k]\n    n = len(d)\n    d.append(1)\n    return n, d",
       "def f(k):\n    d = [g(x) for x in k]\n    d.append(1)\n    n = len(d)\n    return n, d")
differ("def f(k):\n    d = [g(x) for x in k]\n    v = d[0]\n    for x in k:\n        d[0] = h(x)\n    return v, d",
       "def f(k):\n    d = [g(x) for x in k]\n    for x in k:\n        d[0] = h(x)\n    v = d[0]\n    return v, d")
differ("def f(k):\n    d = [g(x) for x in k]\n    v = d[0]\n    if k[1]:\n        d[0] = 4\n    return v, d",
       "def f(k):\n    d = [g(x) for x in k]\n    if k[1]:\n        d[0] = 4\n    v = d[0]\n    return v, d")
differ("def f(k):\n    d = [g(x) for x in k]\n    v = d[-1]\n    d.pop()\n    return v, d",
       "def f(k):\n    d = [g(x) for x in k]\n    d.pop()\n    v = d[-1]\n    return v, d")
differ("def f(k):\n    d = list(k)\n    v = d[0]\n    d.sort()\n    return v, d",
       "def f(k):\n    d = list(k)\n    d.sort()\n    v = d[0]\n    return v, d")
differ("def f(k):\n    v = k[0]\n    k[0] = 5\n    return v",
       "def f(k):\n    k[0] = 5\n    v = k[0]\n    return v")
differ("def f(k):\n    v = k.a\n    k.a = 5\n    return v",
       "def f(k):\n    k.a = 5\n    v = k.a\n    return v")
differ("def f(k):\n    v = k[0]\n    k.append(5)\n    return v, len(k)",
       "def f(k):\n    v = k[0]\n    n = len(k)\n    k.append(5)\n    return v, n")
differ("def f(k):\n    d = {}\n    for x in k:\n        old = d.get(x, 0)\n        d[x] = old + 1\n        k.note(old)\n    return d",
       "def f(k):\n    d = {}\n    for x in k:\n        d[x] = d.get(x, 0) + 1\n        k.note(d[x])\n    return d")
differ("def f(k):\n    q = [k]\n    c = {k: 0}\n    while q:\n        n = q.pop()\n        old = c[n]\n        c[n] = k.m(n)\n        k.note(old)\n    return c",
       "def f(k):\n    q = [k]\n    c = {k: 0}\n    while q:\n        n = q.pop()\n        c[n] = k.m(n)\n        old = c[n]\n        k.note(old)\n    return c")
differ("def f(k):\n    a = [[] for x in k]\n    r = a[0]\n    r.append(1)\n    return a",
       "def f(k):\n    a = [[] for x in k]\n    r = list(a[0])\n    r.append(1)\n    return a")
same("def f(k):\n    a = [[] for x in k]\n    r = a[0]\n    r.append(1)\n    return a",
     "def f(k):\n    a = [[] for x in k]\n    a[0].append(1)\n    return a")
same("def f(k):\n    a = {x: [] for x in k}\n    for y in k:\n        r = a[y]\n        r.append(y)\n    return a",
     "def f(k):\n    a = {x: [] for x in k}\n    for y in k:\n        a[y].append(y)\n    return a")
same("def f(k):\n    a = {x: {} for x in k}\n    for y in k:\n        r = a[y]\n        r[1] = y\n    return a",
     "def f(k):\n    a = {x: {} for x in k}\n    for y in k:\n        a[y][1] = y\n    return a")
same("def f(k):\n    a = {}\n    for y in k:\n        r = []\n        a[y] = r\n        for z in y:\n            r.append(z)\n    return a",
     "def f(k):\n    a = {}\n    for y in k:\n        a[y] = []\n        for z in y:\n            a[y].append(z)\n    return a")
same("def f(k):\n    d = {}\n    for x in k:\n        d[x] = g(x)\n    v = d[k[0]]\n    d[k[0]] = 5\n    return v, d",
     "def f(k):\n    d = {}\n    for x in k:\n        d[x] = g(x)\n    w = d[k[0]]\n    d[k[0]] = 5\n    z = w\n    return z, d")
# ---- aliasing and copies
differ("def f(k):\n    a = list(k.x)\n    a.append(1)\n    return a", "def f(k):\n    a = k.x\n    a.append(1)\n    return a")
differ("def f(k):\n    a = dict(k.x)\n    a[1] = 2\n    return a", "def f(k):\n    a = k.x\n    a[1] = 2\n    return a")
differ("def f(k):\n    a = k.x.copy()\n    a[1] = 2\n    return a", "def f(k):\n    a = k.x\n    a[1] = 2\n    return a")
differ("def f(k):\n    a = [0]\n    b = a\n    b.append(1)\n    return a", "def f(k):\n    a = [0]\n    b = list(a)\n    b.append(1)\n    return a")
differ("def f(k):\n    r = []\n    x = []\n    for y in k:\n        x.append(y)\n        r.append(x)\n    return r", "def f(k):\n    r = []\n    x = []\n    for y in k:\n        x.append(y)\n        r.append(list(x))\n    return r")
differ("def f(k):\n    r = {}\n    for y in k:\n        x = []\n        x.append(y)\n        r[y] = x\n    return r", "def f(k):\n    r = {}\n    x = []\n    for y in k:\n        x.append(y)\n        r[y] = x\n    return r")
differ("def f(self, k):\n    self.a = k.copy()\n    self.b = k", "def f(self, k):\n    self.a = k\n    self.b = k")
differ("def f(self, k):\n    x = []\n    self.a = x\n    self.b = x\n    x.append(1)", "def f(self, k):\n    x = []\n    self.a = x\n    x.append(1)\n    self.b = list(x)\n    self.b.append(k)")
differ("def f(k):\n    m = [[0] * 3 for _ in range(k)]\n    m[0][0] = 1\n    return m", "def f(k):\n    m = [[0] * 3] * k\n    m[0][0] = 1\n    return m")
# ---- loops
differ("def f(k):\n    s = 0\n    for x in k:\n        if x.a:\n            break\n        s += x.b\n    return s", "def f(k):\n    s = 0\n    for x in k:\n        if x.a:\n            continue\n        s += x.b\n    return s")
differ("def f(k):\n    s = 0\n    for x in k:\n        s += x.b\n        if x.a:\n            break\n    return s", "def f(k):\n    s = 0\n    for x in k:\n        if x.a:\n            break\n        s += x.b\n    return s")
differ("def f(k):\n    for x in k:\n        if x.a:\n            return x\n    return None", "def f(k):\n    r = None\n    for x in k:\n        if x.a:\n            r = x\n    return r")
same("def f(k):\n    for x in k:\n        if x.a:\n            return x\n    return None", "def f(k):\n    r = None\n    for x in k:\n        if x.a:\n            r = x\n            break\n    return r", "def f(k):\n    return next((x for x in k if x.a), None)")
differ("def f(k):\n    for i in range(k):\n        g(i)", "def f(k):\n    for i in range(k + 1):\n        g(i)", "def f(k):\n    for i in range(1, k):\n        g(i)", "def f(k):\n    for i in range(k - 1):\n        g(i)")
differ("def f(k):\n    while k.a() < 5:\n        k.b()", "def f(k):\n    while k.a() <= 5:\n        k.b()", "def f(k):\n    while True:\n        k.b()\n        if k.a() >= 5:\n            break")
differ("def f(k):\n    b = None\n    m = 0\n    for x in k:\n        if b is None or x.v < m:\n            m = x.v\n            b = x\n    return b", "def f(k):\n    b = None\n    m = 0\n    for x in k:\n        if b is None or x.v <= m:\n            m = x.v\n            b = x\n    return b", "def f(k):\n    b = None\n    m = 0\n    for x in k:\n        if b is None or x.v < m:\n            b = x\n    return b", "def f(k):\n    b = None\n    m = 0\n    for x in k:\n        if b is None or x.v > m:\n            m = x.v\n            b = x\n    return b")
differ("def f(k):\n    r = []\n    for x in k:\n        for y in x:\n            r.append((x, y))\n    return r", "def f(k):\n    r = []\n    for x in k:\n        for y in k:\n            r.append((x, y))\n    return r", "def f(k):\n    r = []\n    for x in k:\n        for y in x:\n            r.append((y, x))\n    return r")
differ("def f(k):\n    p = None\n    r = []\n    for x in k:\n        r.append((p, x))\n        p = x\n    return r", "def f(k):\n    p = None\n    r = []\n    for x in k:\n        p = x\n        r.append((p, x))\n    return r")
differ("def f(k):\n    n = 0\n    for x in k:\n        if x.a:\n            n += 1\n        else:\n            n = 0\n    return n", "def f(k):\n    n = 0\n    for x in k:\n        if x.a:\n            n += 1\n    return n")
differ("def f(k):\n    a, b = 0, 1\n    for x in k:\n        a, b = b, a + b\n    return a", "def f(k):\n    a, b = 0, 1\n    for x in k:\n        a = b\n        b = a + b\n    return a")
differ("def f(k):\n    s = 1\n    for x in k:\n        s = s * k.g * x\n    return s", "def f(k):\n    s = 1\n    for x in k:\n        s = k.g * x\n    return s")
differ("def f(k):\n    g = 1\n    t = 0\n    for x in k:\n        t += g * x\n        g *= k.y\n    return t", "def f(k):\n    g = 1\n    t = 0\n    for x in k:\n        g *= k.y\n        t += g * x\n    return t", "def f(k):\n    g = 1\n    t = 0\n    for x in k:\n        t += g * x\n    return t")
differ("def f(k):\n    for x in k:\n        if x.a:\n            break\n    else:\n        return 1\n    return 2", "def f(k):\n    for x in k:\n        if x.a:\n            break\n    return 2", "def f(k):\n    for x in k:\n        if x.a:\n            break\n    else:\n        return 2\n    return 1")
differ("def f(k):\n    return [x for x in reversed(k)]", "def f(k):\n    return [x for x in k]")
differ("def f(k):\n    return {x.a: x.b for x in k}", "def f(k):\n    return {x.b: x.a for x in k}", "def f(k):\n    r = {}\n    for x in k:\n        r.setdefault(x.a, x.b)\n    return r")
differ("def f(k):\n    i = 0\n    while i < len(k):\n        if k[i].a:\n            del k[i]\n        else:\n            i += 1", "def f(k):\n    i = 0\n    while i < len(k):\n        if k[i].a:\n            del k[i]\n        i += 1")
# ---- conditions
differ("def f(k):\n    return 1 if k.a and k.b else 2", "def f(k):\n    return 1 if k.a or k.b else 2", "def f(k):\n    return 1 if k.a else 2")
differ("def f(k):\n    return k.a or 5", "def f(k):\n    return k.a if k.a is not None else 5", "def f(k):\n    return 5 if k.a == 0 else k.a")
differ("def f(k):\n    return k.a < k.b < k.c", "def f(k):\n    return k.a < k.b", "def f(k):\n    return k.a < k.b <= k.c")
differ("def f(k):\n    return k.a == k.b", "def f(k):\n    return k.a is k.b", "def f(k):\n    return k.a != k.b")
differ("def f(k):\n    if k.a:\n        g(1)\n    elif k.b:\n        g(2)", "def f(k):\n    if k.a:\n        g(1)\n    if k.b:\n        g(2)")
differ("def f(k):\n    return not k", "def f(k):\n    return k is None", "def f(k):\n    return len(k) == 1")
differ("def f(k):\n    return k.a if k else None", "def f(k):\n    return k.a if k is not None else None")
# ---- arithmetic
differ("def f(k):\n    return k.a // k.b", "def f(k):\n    return k.a / k.b", "def f(k):\n    return k.b // k.a", "def f(k):\n    return -(-k.a // k.b)")
differ("def f(k):\n    return k.a - k.b", "def f(k):\n    return k.b - k.a", "def f(k):\n    return k.a + k.b")
differ("def f(k):\n    return k.a * (k.b + k.c)", "def f(k):\n    return k.a * k.b + k.c")
same("def f(k):\n    return k.a * (k.b + k.c)", "def f(k):\n    return k.a * k.b + k.a * k.c", "def f(k):\n    return (k.c + k.b) * k.a")
differ("def f(k):\n    return max(k.a, 0)", "def f(k):\n    return min(k.a, 0)", "def f(k):\n    return abs(k.a)", "def f(k):\n    return max(k.a, 1)")
differ("def f(k):\n    return int(k.a)", "def f(k):\n    return round(k.a)", "def f(k):\n    return k.a")
differ("def f(k):\n    return k.a ** 2", "def f(k):\n    return k.a * 2", "def f(k):\n    return 2 ** k.a")
differ("def f(k):\n    return k[1:]", "def f(k):\n    return k[:1]", "def f(k):\n    return k[:-1]", "def f(k):\n    return k[1:-1]", "def f(k):\n    return k[::-1]")
# ---- exceptions
differ("def f(k):\n    try:\n        return k.a()\n    except KeyError:\n        return 0", "def f(k):\n    try:\n        return k.a()\n    except ValueError:\n        return 0", "def f(k):\n    return k.a()")
differ("def f(k):\n    try:\n        k.a()\n    finally:\n        k.b()", "def f(k):\n    k.a()", "def f(k):\n    try:\n        k.a()\n    except Exception:\n        k.b()")
differ("def f(k):\n    if k.a:\n        raise ValueError(k)\n    return 1", "def f(k):\n    if k.a:\n        raise TypeError(k)\n    return 1", "def f(k):\n    return 1")
differ("def f(k):\n    with k.lock:\n        k.a += 1", "def f(k):\n    k.a += 1")
differ("def f(k):\n    with k.lock:\n        k.a += 1\n    k.b()", "def f(k):\n    with k.lock:\n        k.a += 1\n        k.b()")
# ---- calls and state
M = "class C:\n    def m(self):\n        self.n()\n        return self.a\n    def n(self):\n        self.z = self.z + 1\n    def f(self, k):\n"
differ(M + "        self.a = k\n        return self.m()", M + "        r = self.m()\n        self.a = k\n        return r")
differ(M + "        x = self.z\n        self.m()\n        return x", M + "        self.m()\n        x = self.z\n        return x")
differ(M + "        self.z = k\n        self.m()\n        return self.z", M + "        self.z = k\n        self.m()\n        return k")
same(M + "        self.b = k\n        return self.m()", M + "        r = self.m()\n        self.b = k\n        return r")
same(M + "        x = self.a\n        self.m()\n        return x", M + "        self.m()\n        x = self.a\n        return x")
differ("def f(self, k):\n    self.a = k\n    self.a = 5", "def f(self, k):\n    self.a = 5\n    self.a = k")
differ("def f(self, k):\n    self.a = self.b\n    self.b = k", "def f(self, k):\n    self.b = k\n    self.a = self.b")
differ("def f(self, k):\n    self.a, self.b = self.b, self.a", "def f(self, k):\n    self.a = self.b\n    self.b = self.a")
differ("def f(k):\n    return g(k.a, k.b)", "def f(k):\n    return g(k.b, k.a)", "def f(k):\n    return g(k.a)", "def f(k):\n    return g(k.a, b=k.b)", "def f(k):\n    return h(k.a, k.b)")
differ("def f(k):\n    x = k.sample()\n    return [x, x]", "def f(k):\n    return [k.sample(), k.sample()]")
differ("def f(k):\n    x = k.sample()\n    return [x for _ in range(5)]", "def f(k):\n    return [k.sample() for _ in range(5)]")
differ("def f(self, k):\n    if self.a is None:\n        self.a = self.m(k)\n    return self.a", "def f(self, k):\n    self.a = self.m(k)\n    return self.a", "def f(self, k):\n    if self.a is None:\n        self.a = self.m(k)\n    return self.m(k)")
differ("def f(k, x=None):\n    return k if x is None else x", "def f(k, x=None):\n    return k")
differ("def f(k):\n    return sorted(k, key=lambda x: x.a)", "def f(k):\n    return sorted(k, key=lambda x: x.b)", "def f(k):\n    return sorted(k, key=lambda x: -x.a)", "def f(k):\n    return sorted(k)", "def f(k):\n    return sorted(k, key=lambda x: x.a, reverse=True)")
differ("def f(k):\n    fs = []\n    for x in k:\n        fs.append(lambda: x)\n    return fs", "def f(k):\n    fs = []\n    for x in k:\n        fs.append(lambda x=x: x)\n    return fs")
differ("def f(k):\n    return any(x.a for x in k)", "def f(k):\n    return all(x.a for x in k)", "def f(k):\n    return any(not x.a for x in k)")
differ("def f(k):\n    return sum(x.a for x in k) / len(k)", "def f(k):\n    return sum(x.a for x in k)", "def f(k):\n    return sum(x.a for x in k) / (len(k) - 1)", "def f(k):\n    return sum(x.a for x in set(k)) / len(k)")
differ("def f(k):\n    d = {}\n    for x in k:\n        d[x.a] = d.get(x.a, 0) + x.b\n    return d", "def f(k):\n    d = {}\n    for x in k:\n        d[x.a] = x.b\n    return d", "def f(k):\n    d = {}\n    for x in k:\n        d[x.a] = d.get(x.a, 1) + x.b\n    return d")
differ("def f(k):\n    k.d.update(k.e)\n    return k.d", "def f(k):\n    k.e.update(k.d)\n    return k.d", "def f(k):\n    return {**k.d, **k.e}")
differ("def f(k):\n    return {**k.d, **k.e}", "def f(k):\n    return {**k.e, **k.d}")
differ("def f(k):\n    yield k.a\n    yield k.b", "def f(k):\n    yield k.b\n    yield k.a", "def f(k):\n    return [k.a, k.b]")
differ("def f(k):\n    return k.x.pop()", "def f(k):\n    return k.x.pop(0)", "def f(k):\n    return k.x[-1]")
differ("def f(k):\n    k.x.append(k.y)\n    k.x.sort()", "def f(k):\n    k.x.sort()\n    k.x.append(k.y)")
differ("def f(k):\n    q = [k]\n    s = set()\n    while q:\n        n = q.pop(0)\n        for m in n.c():\n            if m not in s:\n                s.add(m)\n                q.append(m)\n    return s", "def f(k):\n    q = [k]\n    s = set()\n    while q:\n        n = q.pop(0)\n        s.add(n)\n        for m in n.c():\n            if m not in s:\n                q.append(m)\n    return s", "def f(k):\n    q = [k]\n    s = {k}\n    while q:\n        n = q.pop(0)\n        for m in n.c():\n            if m not in s:\n                s.add(m)\n                q.append(m)\n    return s")
differ("def f(k):\n    a = [k.sample() for _ in range(5)]\n    b = [k.sample() for _ in range(5)]\n    return a, b", "def f(k):\n    a = [k.sample() for _ in range(5)]\n    return a, a")
same("def f(k):\n    a = []\n    for i in range(5):\n        a.append(k.sample())\n    return a", "def f(k):\n    return [k.sample() for _ in range(5)]")
differ("def f(k):\n    if random.random() < 0.5:\n        return 1\n    return 1 if random.random() < 0.5 else 2", "def f(k):\n    x = random.random()\n    if x < 0.5:\n        return 1\n    return 1 if x < 0.5 else 2")
# ---- more that must stay equal
same("def f(k):\n    r = []\n    for x in k:\n        if x.a:\n            r.append(x.b)\n    return r", "def f(k):\n    return [x.b for x in k if x.a]", "def f(k):\n    return [y.b for y in filter(lambda x: x.a, k)]", "def f(k):\n    r = []\n    for x in k:\n        if not x.a:\n            continue\n        r.append(x.b)\n    return r", "def f(k):\n    return list(x.b for x in k if x.a)", "def f(k):\n    r = list()\n    for x in k:\n        if x.a:\n            r += [x.b]\n    return r")
same("def f(k):\n    r = {}\n    for x in k:\n        r[x.a] = x.b\n    return r", "def f(k):\n    return {x.a: x.b for x in k}", "def f(k):\n    return dict((x.a, x.b) for x in k)", "def f(k):\n    r = dict()\n    for y in k:\n        key = y.a\n        r[key] = y.b\n    return r", "def f(k):\n    return dict([(x.a, x.b) for x in k])")
same("def f(k):\n    if k.a:\n        return 1\n    else:\n        return 2", "def f(k):\n    return 1 if k.a else 2", "def f(k):\n    if not k.a:\n        return 2\n    return 1", "def f(k):\n    r = 2\n    if k.a:\n        r = 1\n    return r", "def h(k):\n    return bool(k.a)\ndef f(k):\n    if h(k):\n        return 1\n    return 2")
same("def f(k):\n    t = 0\n    for x in k:\n        t += x\n    return t", "def f(k):\n    return sum(x for x in k)", "def f(k):\n    t = 0\n    for i in range(len(k)):\n        t = t + k[i]\n    return t", "def f(k):\n    return sum([x for x in k])")
same("def f(k):\n    for i, x in enumerate(k):\n        k.m(i, x)", "def f(k):\n    for i in range(len(k)):\n        k.m(i, k[i])", "def f(k):\n    i = 0\n    for x in k:\n        k.m(i, x)\n        i += 1")
same("def f(k):\n    for x in k:\n        if x.a:\n            return True\n    return False", "def f(k):\n    return any(x.a for x in k)", "def f(k):\n    r = False\n    for x in k:\n        if x.a:\n            r = True\n            break\n    return r", "def f(k):\n    return not all(not x.a for x in k)")
same("def f(k):\n    x = k.a\n    y = k.b\n    return g(x, y)", "def f(k):\n    y = k.b\n    x = k.a\n    return g(x, y)", "def f(k):\n    return g(k.a, k.b)", "def f(k):\n    args = (k.a, k.b)\n    return g(*args)")
same("def f(k):\n    return k.a if k.a is not None else k.b", "def f(k):\n    if k.a is None:\n        return k.b\n    return k.a", "def f(k):\n    v = k.a\n    return v if not v is None else k.b")
same("def f(k):\n    while True:\n        if k.done():\n            break\n        k.go()", "def f(k):\n    while not k.done():\n        k.go()")
same("def f(k):\n    s = k.start()\n    while not s.end():\n        s = k.go(s)\n    return s", "def f(k):\n    s = k.start()\n    while True:\n        if s.end():\n            return s\n        s = k.go(s)")
same("def f(k):\n    i = 0\n    while i < len(k):\n        k.m(i)\n        i += 1", "def f(k):\n    for i in range(len(k)):\n        k.m(i)")
same("def f(k, n):\n    i = 0\n    while i < n and k.ok():\n        k.m(i)\n        i += 1", "def f(k, n):\n    i = 0\n    while i < n:\n        if not k.ok():\n            break\n        k.m(i)\n        i += 1", "def f(k, n):\n    for i in range(n):\n        if not k.ok():\n            break\n        k.m(i)")
same("def f(k):\n    a, b = k.m()\n    return a + b", "def f(k):\n    t = k.m()\n    return t[0] + t[1]", "def f(k):\n    t = k.m()\n    a = t[0]\n    b = t[1]\n    return b + a")
same("def f(k):\n    return f'{k.a}-{k.b}'", "def f(k):\n    return '{}-{}'.format(k.a, k.b)", "def f(k):\n    return str(k.a) + '-' + str(k.b)")
same("def f(k):\n    return k.a <= k.b and k.b <= k.c", "def f(k):\n    return k.a <= k.b <= k.c", "def f(k):\n    return not (k.a > k.b or k.b > k.c)")
same("def f(k):\n    best = None\n    for x in k:\n        if best is None or x.v > best.v:\n            best = x\n    return best", "def f(k):\n    best = None\n    for x in k:\n        if best is None:\n            best = x\n        elif x.v > best.v:\n            best = x\n    return best")
same("def f(k):\n    m = -1\n    for x in k:\n        m = max(m, x.v)\n    return m", "def f(k):\n    m = -1\n    for x in k:\n        if x.v > m:\n            m = x.v\n    return m")
same("def f(k):\n    with k.lock:\n        k.a()\n        k.b()", "def h(k):\n    k.a()\n    k.b()\ndef f(k):\n    with k.lock:\n        h(k)")
same("def f(k):\n    try:\n        return k.a()\n    except KeyError:\n        return None", "def f(k):\n    try:\n        r = k.a()\n    except KeyError:\n        r = None\n    return r")
same("def f(k):\n    if k.a:\n        if k.b:\n            k.m()", "def f(k):\n    if k.a and k.b:\n        k.m()", "def f(k):\n    if not k.a:\n        return\n    if not k.b:\n        return\n    k.m()", "def f(k):\n    if not (k.a and k.b):\n        return\n    k.m()")
same("def f(k):\n    d = k.d\n    if k.x in d:\n        v = d[k.x]\n    else:\n        v = 0\n    return v", "def f(k):\n    return k.d.get(k.x, 0)", "def f(k):\n    return k.d[k.x] if k.x in k.d else 0")
same("def f(k):\n    r = [None] * len(k)\n    for i in range(len(k)):\n        r[i] = k[i].a\n    return r", "def f(k):\n    return [x.a for x in k]")
same("def f(k):\n    return [(x, y) for x in k.a for y in k.b]", "def f(k):\n    r = []\n    for x in k.a:\n        for y in k.b:\n            r.append((x, y))\n    return r", "def f(k):\n    r = []\n    for x in k.a:\n        r.extend((x, y) for y in k.b)\n    return r", "def f(k):\n    r = []\n    for x in k.a:\n        r += [(x, y) for y in k.b]\n    return r")
same("def f(k):\n    d = {}\n    for x in k:\n        if x.a not in d:\n            d[x.a] = []\n        d[x.a].append(x.b)\n    return d", "def f(k):\n    d = {}\n    for x in k:\n        d.setdefault(x.a, []).append(x.b)\n    return d")
same("def f(k):\n    s = set()\n    for x in k:\n        s.add(x.a)\n    return s", "def f(k):\n    return {x.a for x in k}", "def f(k):\n    return set(x.a for x in k)", "def f(k):\n    return set([x.a for x in k])")
same("def f(k):\n    return -k.a if k.a < 0 else k.a", "def f(k):\n    if k.a >= 0:\n        return k.a\n    return -k.a")
same("def f(k):\n    x = k.m()\n    assert x is not None\n    return x", "def f(k):\n    return k.m()")
same("def f(k):\n    return sorted(k, key=lambda x: x.a)", "def f(k):\n    def key(x):\n        return x.a\n    return sorted(k, key=key)")
same("def f(k):\n    r = list(k)\n    r.sort(key=lambda x: x.a)\n    return r", "def f(k):\n    return sorted(k, key=lambda x: x.a)")
same("def f(k):\n    return k[len(k) - 1]", "def f(k):\n    return k[-1]")
same("def f(k):\n    a = k.x[0]\n    b = k.x[1]\n    return a, b", "def f(k):\n    x = k.x\n    return x[0], x[1]")
same("def f(k):\n    lo = min(k.a, k.b)\n    return lo", "def f(k):\n    return k.a if k.a < k.b else k.b", "def f(k):\n    return k.b if k.b < k.a else k.a")
same("def f(k):\n    n = 0\n    for x in k:\n        if x.a:\n            n += 1\n    return n", "def f(k):\n    return sum(1 for x in k if x.a)", "def f(k):\n    return len([x for x in k if x.a])", "def f(k):\n    return sum(1 if x.a else 0 for x in k)")
same("def f(k):\n    p = 1.0\n    for x in k:\n        p *= x\n    return p", "def f(k):\n    p = 1.0\n    for x in k:\n        p = p * x\n    return p", "def f(k):\n    p = 1.0\n    for i in range(len(k)):\n        p *= k[i]\n    return p")
same("def f(k):\n    for a, b in zip(k.x, k.y):\n        k.m(a, b)", "def f(k):\n    for p in zip(k.x, k.y):\n        k.m(p[0], p[1])")
same("def f(k):\n    for a, b in k.items():\n        k.m(a, b)", "def f(k):\n    for a in k:\n        k.m(a, k[a])", "def f(k):\n    for a in k.keys():\n        b = k[a]\n        k.m(a, b)")
same("def f(k):\n    return all(x in k.b for x in k.a)", "def f(k):\n    for x in k.a:\n        if x not in k.b:\n            return False\n    return True")
same("def f(k):\n    if k.a == 1:\n        r = k.x\n    elif k.a == 2:\n        r = k.y\n    else:\n        r = k.z\n    return r", "def f(k):\n    if k.a == 1:\n        return k.x\n    if k.a == 2:\n        return k.y\n    return k.z", "def f(k):\n    return k.x if k.a == 1 else (k.y if k.a == 2 else k.z)", "def f(k):\n    if k.a == 2:\n        return k.y\n    if k.a == 1:\n        return k.x\n    return k.z")

same("""
def f(k):
    def g(x):
        if x.a:
            k.m(x)
        return x.b
    return k.each(g)
""", """
def f(k):
    def visit(item):
        if not item.a:
            return item.b
        k.m(item)
        return item.b
    return k.each(visit)
""")
differ("""
def f(k):
    def g(x):
        k.m(x)
        return x.b
    return k.each(g)
""", """
def f(k):
    def g(x):
        return x.b
    return k.each(g)
""", """
def f(k):
    def g(x):
        if x.b:
            k.m(x)
        return x.b
    return k.each(g)
""")
differ("""
def f(k):
    class W:
        a = k.a
        def go(self, x):
            return k.m(x)
    return W()
""", """
def f(k):
    class W:
        a = k.a
        def go(self, x):
            return None
    return W()
""", """
def f(k):
    class W:
        a = k.b
        def go(self, x):
            return k.m(x)
    return W()
""", """
def f(k):
    class W:
        a = k.a
        def go(self, x):
            self.x = x
            return k.m(x)
    return W()
""", """
def f(k):
    class W(k.z):
        a = k.a
        def go(self, x):
            return k.m(x)
    return W()
""", """
def f(k):
    class W:
        a = k.a
        @k.z
        def go(self, x):
            return k.m(x)
    return W()
""")
same("""
def f(k):
    class W:
        a = k.a
        def go(self, x):
            return k.m(x)
    return W()
""", """
def f(k):
    class Walker:
        def go(self, item):
            r = k.m(item)
            return r
        a = k.a
    w = Walker()
    return w
""")


# a value kept from an earlier iteration, tested by that iteration's draw
differ("""
def f(self, v, p, ch):
    for k in range(self.size):
        if random.random() <= p:
            x = random.choice(ch[k])
            v[k] = x
""", """
def f(self, v, p, ch):
    for k in range(self.size):
        if random.random() <= p:
            x = random.choice(ch[k])
        v[k] = x
""")
differ("""
def f(self, v, p, ch):
    for k in v:
        if k.good:
            x = k.name
            self.m(x)
""", """
def f(self, v, p, ch):
    for k in v:
        if k.good:
            x = k.name
        self.m(x)
""")
differ("""
def f(self, v, p, ch):
    x = None
    for k in v:
        if k.good(p):
            x = k.name
        if k.good(p):
            self.m(x)
""", """
def f(self, v, p, ch):
    x = None
    for k in v:
        y = x
        if k.good(p):
            x = k.name
        if k.good(p):
            self.m(y)
""")
same("""
def f(self, v, p, ch):
    for k in v:
        if k.good:
            x = k.name
            self.m(x)
""", """
def f(self, v, p, ch):
    for k in v:
        x = None
        if k.good:
            x = k.name
        if k.good:
            self.m(x)
""", """
def f(self, v, p, ch):
    for k in v:
        if k.good:
            x = k.name
        if k.good:
            self.m(x)
""")
