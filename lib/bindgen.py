"""Generates the drivers of the language bindings (harness/bind/) from the documented interface, lib/xrtm_interface.def.

Every driver reads the same script of calls (one name per line, then one line per scalar, and per array a line of
dimensions followed by its values), performs the calls through its language and prints what came back.
"""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "harness", "bind")


def table(fn="xrtm_interface.def", pre="", h="d"):
    T = []
    s = re.sub(r"/\*.*?\*/", "", open(os.path.join(HERE, fn)).read(), flags=re.S)
    for l in s.split(";"):
        l = " ".join(l.split())
        m = re.match(r"subprogram_general (int|double|enum \w+) 0 (\w+) (\d)\b(.*)$", l)
        if not m:
            continue
        args = []
        for a in re.split(r",\s*(?=(?:int|double|enum) )", m.group(4).lstrip(" ,")) if "," in m.group(4) else []:
            a = a.strip().rstrip(",")
            x = re.match(r"(int|double|enum \w+) (\d) ((?:\"[^\"]*\" )*)(\w+) (in|out)", a)
            if x:
                args.append(dict(t="double" if x.group(1) == "double" else "int", enum=x.group(1).split()[1] if x.group(1).startswith("enum") else "", n=int(x.group(2)), name=x.group(4), io=x.group(5)))
        T.append(dict(name=pre + m.group(2), short=m.group(2), h=h, ret="double" if m.group(1) == "double" else "int", value=m.group(3) == "1", args=args))
    return T


def c_like(T, cpp):
    o = ["// generated by lib/bindgen.py"]
    for f in T:
        o.append("if (nm == \"%s\") {" % f["name"])
        call = []
        post = []
        for i, a in enumerate(f["args"]):
            v = "a%d" % i
            t = a["t"]
            if a["n"] == 0:
                if a["io"] == "in":
                    o.append("  %s %s = q.%s();" % (t, v, t[0]))
                    c = v
                    if a["enum"]:
                        c = ("(xrtm_%sint_cpp::%s) " % ("fd_" if a["enum"] == "method_type" else "", a["enum"]) if cpp else "(enum xrtm_%s%s) " % ("fd_" if a["enum"] == "method_type" else "", a["enum"])) + v
                    call.append(c)
                else:
                    o.append("  %s %s = 0;" % (t, v))
                    call.append("&" + v)
                    post.append("w.%s(%s);" % (t[0], v))
            else:
                o.append("  Arr<%s> %s(q, %d, %d);" % (t, v, a["n"], a["io"] == "in"))
                call.append("%s.p%d()" % (v, a["n"]))
                if a["io"] == "out":
                    post.append("w.a(%s.v);" % v)
        cl = ", ".join(call)
        if cpp:
            ex = "xrtm_fd_int_cpp::xrtm_fd_errors" if f["h"] == "fd" else "xrtm_int_cpp::xrtm_errors"
            if f["value"]:
                o.append("  try { w.ret%s(m->%s(%s)); } catch (%s) { w.err(); }" % ("d" if f["ret"] == "double" else "i", f["short"], cl, ex))
            else:
                o.append("  try { m->%s(%s); w.ok(); %s } catch (%s) { w.err(); }" % (f["short"], cl, " ".join(post), ex))
        else:
            c = "xrtm_%s(&%s%s)" % (f["name"], f["h"], ", " + cl if cl else "")
            if f["value"]:
                E = "XRTM_DBL_ERROR" if f["ret"] == "double" else "XRTM_INT_ERROR"
                o.append("  %s r = (%s) %s; if (r == %s) w.err(); else w.ret%s(r);" % (f["ret"], f["ret"], c, E, f["ret"][0]))
            else:
                o.append("  if (%s) w.err(); else { w.ok(); %s }" % (c, " ".join(post)))
        o.append("  return true; }")
    return "\n".join(o) + "\n"


def f90(T):
    o = ["! generated by lib/bindgen.py", "subroutine drv_f90(fin, fout) bind(c)", "  use iso_c_binding", "  use xrtm_int_f90", "  use xrtm_fd_int_f90", "  implicit none",
         "  character(kind=c_char), intent(in) :: fin(*), fout(*)", "  character(256) :: ci, co", "  character(64) :: nm", "  type(xrtm_type) :: d", "  type(xrtm_fd_type) :: fd", "  integer :: error, i, ri, q(13), ios", "  real(8) :: rd", "  integer, allocatable :: kk(:)",
         "  integer :: i0,i1,i2,i3,i4,i5,i6,i7,i8,i9,i10,i11,i12,i13,i14,i15,i16,i17,i18,i19", "  real(8) :: d0,d1,d2,d3,d4,d5,d6,d7,d8,d9,d10"]
    need = sorted({(a["t"], a["n"], i) for f in T for i, a in enumerate(f["args"]) if a["n"]})
    for t, n, i in need:
        o.append("  %s, allocatable :: %s%d_%d(%s)" % ("real(8)" if t == "double" else "integer", "x" if t == "double" else "k", n, i, ",".join(":" * n)))
    o += ["  integer :: s(5)", "  ci = ' '; co = ' '", "  do i = 1, 255", "    if (fin(i) == c_null_char) exit", "    ci(i:i) = fin(i)", "  end do",
          "  do i = 1, 255", "    if (fout(i) == c_null_char) exit", "    co(i:i) = fout(i)", "  end do",
          "  open(unit=81, file=trim(ci), status='old', action='read')", "  open(unit=82, file=trim(co), status='replace', action='write', recl=400)",
          "  do", "    read(81, '(a)', iostat=ios) nm", "    if (ios /= 0) exit", "    write(82, '(a)') trim(nm)", "    select case (trim(nm))",
          "    case ('create')", "      do i = 1, 9", "        read(81, *) q(i)", "      end do", "      read(81, *) q(10)", "      if (allocated(kk)) deallocate(kk)", "      read(81, *) s(1)", "      allocate(kk(s(1)))", "      if (s(1) > 0) read(81, *) kk", "      read(81, *) q(11)", "      read(81, *) q(12)",
          "      call xrtm_create_f90(d, q(1), q(2), q(3), q(4), q(5), q(6), q(7), q(8), q(9), q(10), kk, q(11), q(12), error)", "      call st(error)",
          "    case ('destroy')", "      call xrtm_destroy_f90(d, error)", "      call st(error)",
          "    case ('fd_create')", "      read(81, *) i0", "      call xrtm_fd_create_f90(fd, d, i0, error)", "      call st(error)", "    case ('fd_destroy')", "      call xrtm_fd_destroy_f90(fd, error)", "      call st(error)"]
    for f in T:
        o.append("    case ('%s')" % f["name"])
        names = []
        post = []
        for i, a in enumerate(f["args"]):
            if a["n"] == 0:
                v = ("d%d" if a["t"] == "double" else "i%d") % i
                if a["io"] == "in":
                    o.append("      read(81, *) %s" % v)
                else:
                    post.append("write(82, %s) %s" % ("'(es25.16e3)'" if a["t"] == "double" else "'(i0)'", v))
            else:
                v = "%s%d_%d" % ("x" if a["t"] == "double" else "k", a["n"], i)
                o.append("      read(81, *) (s(i), i = 1, %d)" % a["n"])
                o.append("      if (allocated(%s)) deallocate(%s)" % (v, v))
                o.append("      allocate(%s(%s))" % (v, ", ".join("s(%d)" % (a["n"] - j) for j in range(a["n"]))))
                if a["io"] == "in":
                    o.append("      if (size(%s) > 0) read(81, *) %s" % (v, v))
                else:
                    o.append("      %s = 0" % v)
                    post.append("if (size(%s) > 0) write(82, %s) %s" % (v, "'(es25.16e3)'" if a["t"] == "double" else "'(i0)'", v))
            names.append(v)
        al = f["h"] + "".join(", " + n for n in names)
        if f["value"]:
            if f["ret"] == "double":
                o += ["      rd = xrtm_%s_f90(%s)" % (f["name"], al), "      if (rd == -huge(1d0)) then", "        call st(1)", "      else", "        call st(0)", "        write(82, '(es25.16e3)') rd", "      end if"]
            else:
                o += ["      ri = xrtm_%s_f90(%s)" % (f["name"], al), "      if (ri == -huge(0)) then", "        call st(1)", "      else", "        call st(0)", "        write(82, '(i0)') ri", "      end if"]
        else:
            o.append("      call xrtm_%s_f90(%s, error)" % (f["name"], al))
            o.append("      call st(error)")
            if post:
                o.append("      if (error == 0) then")
                o += ["        " + p for p in post]
                o.append("      end if")
    o += ["    end select", "  end do", "  close(81)", "  close(82)", "contains", "  subroutine st(e)", "    integer, intent(in) :: e", "    if (e == 0) then", "      write(82, '(a)') 'ok'", "    else", "      write(82, '(a)') 'error'", "    end if", "  end subroutine", "end subroutine drv_f90"]
    return "\n".join(o) + "\n"


def f77(T):
    """fixed form calls, free of explicit interfaces: arrays are passed flat"""
    o = ["c     generated by lib/bindgen.py", "      subroutine drv_f77(ci, co)", "      implicit none", "      include 'xrtm_int_f77.inc'", "      character*(*) ci, co", "      character*64 nm", "      byte d(65536)", "      byte fd(1024)", "      integer error, i, ri, q(13), s(5), ios, n", "      real*8 rd", "      integer kk(100)",
         "      integer xk(4096,0:19)", "      real*8 xd(65536,0:19)", "      integer ii(0:19)", "      real*8 dd(0:19)", "      save d, fd, xk, xd"]
    for f in T:
        if f["value"]:
            o.append("      %s xrtm_%s_f77" % ("real*8" if f["ret"] == "double" else "integer", f["name"]))
            o.append("      external xrtm_%s_f77" % f["name"])
    o += ["      open(unit=83, file=ci, status='old')", "      open(unit=84, file=co, status='unknown')", "10    continue", "      read(83, '(a)', iostat=ios) nm", "      if (ios .ne. 0) goto 20", "      write(84, '(a)') nm(1:index(nm, ' ') - 1)",
          "      if (nm .eq. 'create') then", "      do i = 1, 10", "      read(83, *) q(i)", "      end do", "      read(83, *) n", "      if (n .gt. 0) read(83, *) (kk(i), i = 1, n)", "      read(83, *) q(11)", "      read(83, *) q(12)",
          "      call xrtm_create_f77(d, q(1), q(2), q(3), q(4), q(5), q(6),", "     &q(7), q(8), q(9), q(10), kk, q(11), q(12), error)", "      call f77st(error)",
          "      else if (nm .eq. 'destroy') then", "      call xrtm_destroy_f77(d, error)", "      call f77st(error)",
          "      else if (nm .eq. 'fd_create') then", "      read(83, *) i", "      call xrtm_fd_create_f77(fd, d, i, error)", "      call f77st(error)", "      else if (nm .eq. 'fd_destroy') then", "      call xrtm_fd_destroy_f77(fd, error)", "      call f77st(error)"]
    for f in T:
        o.append("      else if (nm .eq. '%s') then" % f["name"])
        names = []
        post = []
        for i, a in enumerate(f["args"]):
            dbl = a["t"] == "double"
            if a["n"] == 0:
                v = "%s(%d)" % ("dd" if dbl else "ii", i)
                if a["io"] == "in":
                    o.append("      read(83, *) %s" % v)
                else:
                    post.append("      write(84, %s) %s" % ("'(es25.16e3)'" if dbl else "'(i0)'", v))
            else:
                x = "xd" if dbl else "xk"
                v = "%s(1,%d)" % (x, i)
                o.append("      read(83, *) (s(i), i = 1, %d)" % a["n"])
                o.append("      n = " + " * ".join("s(%d)" % (j + 1) for j in range(a["n"])))
                if a["io"] == "in":
                    o.append("      if (n .gt. 0) read(83, *) (%s(i,%d), i = 1, n)" % (x, i))
                else:
                    o.append("      call f77z(%s, %s(1,%d), n)" % ("0" if not dbl else "0", x, i) if False else "      do i = 1, n")
                    o.append("      %s(i,%d) = 0" % (x, i))
                    o.append("      end do")
                    o.append("      ii(19) = n")
                    o.append("      q(13) = n")
                    post.append("SIZE%d" % i)
                    post.append("      if (n .gt. 0) write(84, %s) (%s(i,%d), i = 1, n)" % ("'(es25.16e3)'" if dbl else "'(i0)'", x, i))
            names.append(v)
        # remember sizes of outputs in nn()
        L = []
        for l in o:
            L.append(l)
        o = L
        al = [f["h"]] + names

        def callstmt(head, tail):
            toks = [a + "," for a in al] + ([tail + ")"] if tail else [])
            if not tail:
                toks[-1] = toks[-1][:-1] + ")"
            lines = ["      " + head]
            for t in toks:
                if len(lines[-1]) + len(t) + 1 > 70:
                    lines.append("     &" + t)
                else:
                    lines[-1] += " " + t if not lines[-1].endswith("(") else t
            return lines
        if f["value"]:
            dbl = f["ret"] == "double"
            o += callstmt("%s = xrtm_%s_f77(" % ("rd" if dbl else "ri", f["name"]), "")
            o += ["      if (%s .eq. %s) then" % ("rd" if dbl else "ri", "-huge(1d0)" if dbl else "-huge(0)"), "      call f77st(1)", "      else", "      call f77st(0)", "      write(84, %s) %s" % ("'(es25.16e3)'" if dbl else "'(i0)'", "rd" if dbl else "ri"), "      end if"]
        else:
            o += callstmt("call xrtm_%s_f77(" % f["name"], "error")
            o.append("      call f77st(error)")
            if post:
                o.append("      if (error .eq. 0) then")
                for p in post:
                    o.append("      n = nn(%s)" % p[4:] if p.startswith("SIZE") else p)
                o.append("      end if")
    o += ["      end if", "      goto 10", "20    close(83)", "      close(84)", "      end", "", "      subroutine f77st(e)", "      integer e", "      if (e .eq. 0) then", "      write(84, '(a)') 'ok'", "      else", "      write(84, '(a)') 'error'", "      end if", "      end"]
    # sizes: the 'n' of every output array is kept in nn(argument)
    res = []
    for l in o:
        if l == "      q(13) = n":
            continue
        if l == "      ii(19) = n":
            j = int(re.search(r",(\d+)\) = 0", res[-2]).group(1))
            res.append("      nn(%d) = n" % j)
            continue
        res.append(l)
    res.insert(15, "      integer nn(0:19)")
    return "\n".join(res) + "\n"


def py(T):
    import json
    return "# generated by lib/bindgen.py\nTABLE = " + json.dumps([[f["name"], f["ret"], f["value"], [[a["t"], a["n"], a["io"], a["enum"]] for a in f["args"]]] for f in T]).replace("true", "True").replace("false", "False") + "\n"


if __name__ == "__main__":
    T = table()
    F = table("xrtm_fd_interface.def", "fd_", "fd")
    os.makedirs(OUT, exist_ok=True)
    for n, t in (("calls_c.inc", c_like(T, False)), ("calls_cpp.inc", c_like(T, True)), ("calls_fd_c.inc", c_like(F, False)), ("calls_fd_cpp.inc", c_like(F, True)), ("b_f90.f90", f90(T + F)), ("b_f77.f", f77(T + F)), ("b_table.py", py(T))):
        open(os.path.join(OUT, n), "w").write(t)
    print(len(T), "and", len(F), "subprograms")
