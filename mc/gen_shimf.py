#!/usr/bin/env python3
# writes shim2d.f90 / shim3d.f90: C-callable procedures that go through the repository's F90 modules
import sys
for d in (2,3):
    F=f"fft{d}d"; R=f"remap{d}d"
    n=",".join(f"n({i+1})" for i in range(d))
    b=lambda v: ",".join(f"{v}({i+1})" for i in range(2*d))
    s=f"""! generated by gen_shimf.py
"""
    def sub(name,args,decl,body,func=None):
        global s
        kind=f"function {name}({args}) bind(c,name='{name}')" if func else f"subroutine {name}({args}) bind(c,name='{name}')"
        end="end function" if func else "end subroutine"
        res=f"  {func} :: {name}\n" if func else ""
        mod = f"{R}_wrap" if name.startswith("vf_r") and name not in ("vf_rem",) else f"{F}_wrap"
        s+=f"{kind}\n  use iso_c_binding\n  use {mod}\n  implicit none\n{res}"
        for x in decl: s+=f"  {x}\n"
        for x in body: s+=f"  {x}\n"
        s+=f"{end}\n\n"
    P="type(c_ptr), value :: "; I="integer(c_int), value :: "; K="character(c_char) :: k(*)"; IO="integer(c_int) :: "
    sub("vf_create","comm,prec,p",[I+"comm,prec","type(c_ptr) :: p"],[f"call {F}_create(comm,prec,p)"])
    sub("vf_destroy","p",[P+"p"],[f"call {F}_destroy(p)"])
    sub("vf_set","p,k,v",[P+"p",K,I+"v"],[f"call {F}_set(p,k,v)"])
    sub("vf_gi","p,k",[P+"p",K],[f"vf_gi = {F}_get_int(p,k)"],"integer(c_int)")
    sub("vf_gd","p,k",[P+"p",K],[f"vf_gd = {F}_get_double(p,k)"],"real(c_double)")
    sub("vf_g64","p,k",[P+"p",K],[f"vf_g64 = {F}_get_int64(p,k)"],"integer(c_int64_t)")
    for a,q in (("vf_gs","string"),("vf_giv","int_vector"),("vf_gdv","double_vector")):
        sub(a,"p,k,l",[P+"p",K,IO+"l"],[f"{a} = {F}_get_{q}(p,k,l)"],"type(c_ptr)")
    nb=[I0:="integer(c_int) :: n(*),a(*),b(*)"]
    sub("vf_setup","p,n,a,b,pm,fs,ss,rs",[P+"p"]+nb+[I+"pm",IO+"fs,ss,rs"],
        [f"call {F}_setup(p,{n}, &","  "+b('a')+", &","  "+b('b')+",pm,fs,ss,rs)"])
    sub("vf_mem","p,a,b",[P+"p,a,b"],[f"call {F}_setup_memory(p,a,b)"])
    sub("vf_compute","p,a,b,f",[P+"p,a,b",I+"f"],[f"call {F}_compute(p,a,b,f)"])
    sub("vf_1d","p,a,f",[P+"p,a",I+"f"],[f"call {F}_only_1d_ffts(p,a,f)"])
    sub("vf_rem","p,a,b,f",[P+"p,a,b",I+"f"],[f"call {F}_only_remaps(p,a,b,f)"])
    sub("vf_one","p,a,b,f,w",[P+"p,a,b",I+"f,w"],[f"call {F}_only_one_remap(p,a,b,f,w)"])
    sub("vf_tune","p,n,a,b,pm,fs,ss,rs,f,it,tm,tf",[P+"p"]+nb+[I+"pm",IO+"fs,ss,rs",I+"f,it","real(c_double), value :: tm",I+"tf"],
        [f"call {F}_tune(p,{n}, &","  "+b('a')+", &","  "+b('b')+",pm,fs,ss,rs,f,it,tm,tf)"])
    sub("vf_rcreate","comm,p",[I+"comm","type(c_ptr) :: p"],[f"call {R}_create(comm,p)"])
    sub("vf_rdestroy","p",[P+"p"],[f"call {R}_destroy(p)"])
    sub("vf_rset","p,k,v",[P+"p",K,I+"v"],[f"call {R}_set(p,k,v)"])
    sub("vf_rsetup","p,a,b,nq,pm,mf,ss,rs",[P+"p","integer(c_int) :: a(*),b(*)",I+"nq,pm,mf",IO+"ss,rs"],
        [f"call {R}_setup(p, &","  "+b('a')+", &","  "+b('b')+",nq,pm,mf,ss,rs)"])
    sub("vf_rremap","p,a,b,c,d",[P+"p,a,b,c,d"],[f"call {R}_remap(p,a,b,c,d)"])
    open(f"{sys.argv[1]}/shim{d}d.f90","w").write(s)
