def setup(m):
    """warms the build caches; every check builds what it needs by itself too"""
    need = (lambda: m.build_broker("dbg"), lambda: m.build_crate("bb"))
    for f in need:
        try:
            f()
        except m.BuildError as x:
            print("setup:", x)
            raise SystemExit(1)
    for f in (lambda: m.build_crate("wb", tdir="wb"), lambda: m.build_crate("wbm", tdir="wb"), lambda: m.build_broker("tsan"), lambda: m.build_broker("asan"),
              lambda: m.build_crate("wb", toolchain="nightly", flags="-Zsanitizer=address", target=m.TRIPLE, tdir="wb-asan")):
        try:
            f()
        except m.BuildError as x:
            print("setup (the check that needs this will say so):", x)
