//! Loading a plugin and taking over its imports.
//!
//! The plugin is the unmodified shared object built from /repo.  Every
//! import for which a wrapper exists is redirected by rewriting that
//! object's own GOT, so only calls made *by the plugin* are affected.

use libc::{c_char, c_int, c_void};
use std::collections::BTreeSet;
use std::ffi::{CStr, CString};

#[repr(C)]
struct LinkMap {
    l_addr: usize,
    l_name: *const c_char,
    l_ld: *const Dyn,
    l_next: *mut LinkMap,
    l_prev: *mut LinkMap,
}

#[repr(C)]
struct Dyn {
    tag: i64,
    val: usize,
}

#[repr(C)]
struct Sym {
    name: u32,
    info: u8,
    other: u8,
    shndx: u16,
    value: u64,
    size: u64,
}

#[repr(C)]
struct Rela {
    offset: u64,
    info: u64,
    addend: i64,
}

extern "C" {
    fn dlinfo(h: *mut c_void, req: c_int, arg: *mut c_void) -> c_int;
    fn __tls_get_addr(ti: *const TlsIndex) -> *mut u8;
}

#[repr(C)]
struct TlsIndex {
    module: usize,
    offset: usize,
}

const RTLD_DI_LINKMAP: c_int = 2;
const RTLD_DI_TLS_MODID: c_int = 9;

pub struct Lib {
    handle: *mut c_void,
    base: usize,
    pub imports: BTreeSet<String>,
    pub wrapped: BTreeSet<String>,
    /// pristine copies of the writable, non-RELRO data of the object
    data: Vec<(usize, Vec<u8>)>,
    tls: Option<(*mut u8, Vec<u8>)>,
}

struct Seg {
    base: usize,
    found: bool,
    w: Vec<(usize, usize)>,
    relro: Option<(usize, usize)>,
    tls: Option<(usize, usize, usize)>,
}

unsafe extern "C" fn phdr_cb(info: *mut libc::dl_phdr_info, _sz: usize, data: *mut c_void) -> c_int {
    let s = &mut *(data as *mut Seg);
    let i = &*info;
    if i.dlpi_addr as usize != s.base || s.found {
        return 0;
    }
    s.found = true;
    for k in 0..i.dlpi_phnum as usize {
        let p = &*i.dlpi_phdr.add(k);
        let a = s.base + p.p_vaddr as usize;
        match p.p_type {
            libc::PT_LOAD if p.p_flags & libc::PF_W != 0 => s.w.push((a, a + p.p_memsz as usize)),
            libc::PT_GNU_RELRO => s.relro = Some((a & !4095, (a + p.p_memsz as usize) & !4095)),
            libc::PT_TLS => s.tls = Some((a, p.p_filesz as usize, p.p_memsz as usize)),
            _ => {}
        }
    }
    1
}

impl Lib {
    /// Loads `path` and redirects every import named by `wrap`.
    pub unsafe fn load(path: &str, wrap: &dyn Fn(&str) -> Option<usize>) -> Result<Lib, String> {
        let c = CString::new(path).unwrap();
        let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            return Err(format!("dlopen {}: {}", path, CStr::from_ptr(libc::dlerror()).to_string_lossy()));
        }
        let mut lm: *mut LinkMap = std::ptr::null_mut();
        if dlinfo(h, RTLD_DI_LINKMAP, &mut lm as *mut _ as *mut c_void) != 0 {
            return Err("dlinfo".into());
        }
        let base = (*lm).l_addr;
        let (mut symtab, mut strtab, mut rela, mut relasz, mut jmp, mut jmpsz) = (0usize, 0usize, 0, 0, 0, 0);
        let mut d = (*lm).l_ld;
        while (*d).tag != 0 {
            match (*d).tag {
                5 => strtab = (*d).val,
                6 => symtab = (*d).val,
                7 => rela = (*d).val,
                8 => relasz = (*d).val,
                23 => jmp = (*d).val,
                2 => jmpsz = (*d).val,
                _ => {}
            }
            d = d.add(1);
        }
        let mut lib = Lib {
            handle: h,
            base,
            imports: BTreeSet::new(),
            wrapped: BTreeSet::new(),
            data: vec![],
            tls: None,
        };
        for (tab, sz) in [(rela, relasz), (jmp, jmpsz)] {
            for k in 0..sz / 24 {
                let r = &*((tab + k * 24) as *const Rela);
                let (ty, si) = ((r.info & 0xffff_ffff) as u32, (r.info >> 32) as usize);
                if !(ty == 6 || ty == 7 || ty == 1) || si == 0 {
                    continue;
                }
                let s = &*((symtab + si * 24) as *const Sym);
                if s.shndx != 0 {
                    continue; // defined here
                }
                let name = CStr::from_ptr((strtab + s.name as usize) as *const c_char).to_string_lossy().into_owned();
                if let Some(w) = wrap(&name) {
                    let at = (base + r.offset as usize) as *mut usize;
                    let page = (at as usize) & !4095;
                    if libc::mprotect(page as *mut c_void, 4096, libc::PROT_READ | libc::PROT_WRITE) != 0 {
                        return Err("mprotect".into());
                    }
                    *at = (w as i64 + r.addend) as usize;
                    lib.wrapped.insert(name.clone());
                }
                lib.imports.insert(name);
            }
        }
        lib.snapshot();
        Ok(lib)
    }

    pub unsafe fn sym(&self, name: &str) -> Option<*mut c_void> {
        let c = CString::new(name).unwrap();
        let p = libc::dlsym(self.handle, c.as_ptr());
        if p.is_null() { None } else { Some(p) }
    }

    unsafe fn snapshot(&mut self) {
        let mut s = Seg { base: self.base, found: false, w: vec![], relro: None, tls: None };
        libc::dl_iterate_phdr(Some(phdr_cb), &mut s as *mut _ as *mut c_void);
        for (a, b) in s.w {
            let mut from = a;
            if let Some((ra, rb)) = s.relro {
                if ra <= from && from < rb {
                    from = rb;
                }
            }
            if from < b {
                let v = std::slice::from_raw_parts(from as *const u8, b - from).to_vec();
                self.data.push((from, v));
            }
        }
        if let Some((init, filesz, memsz)) = s.tls {
            let mut modid: usize = 0;
            dlinfo(self.handle, RTLD_DI_TLS_MODID, &mut modid as *mut _ as *mut c_void);
            if modid != 0 {
                let p = __tls_get_addr(&TlsIndex { module: modid, offset: 0 });
                let mut v = vec![0u8; memsz];
                std::ptr::copy_nonoverlapping(init as *const u8, v.as_mut_ptr(), filesz);
                self.tls = Some((p, v));
            }
        }
    }

    /// Puts the object's static and thread-local data back to the state
    /// it had right after it was loaded.
    pub unsafe fn reset(&self) {
        for (a, v) in &self.data {
            std::ptr::copy_nonoverlapping(v.as_ptr(), *a as *mut u8, v.len());
        }
        if let Some((p, v)) = &self.tls {
            std::ptr::copy_nonoverlapping(v.as_ptr(), *p, v.len());
        }
    }
}
