//! Minimal in-memory loader for the x86-64 ELF relocatable objects the native backend emits.
use std::collections::HashMap;

pub struct Image {
    base: *mut u8,
    len: usize,
    pub syms: HashMap<String, usize>,
}
impl Drop for Image {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut _, self.len) };
    }
}
fn u16a(b: &[u8], o: usize) -> usize { u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize }
fn u32a(b: &[u8], o: usize) -> usize { u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize }
fn u64a(b: &[u8], o: usize) -> usize { u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize }
fn cstr(b: &[u8], o: usize) -> String {
    let e = b[o..].iter().position(|&c| c == 0).unwrap();
    String::from_utf8_lossy(&b[o..o + e]).into_owned()
}

pub fn load(obj: &[u8], resolve: &dyn Fn(&str) -> Option<usize>) -> Result<Image, String> {
    if obj.len() < 64 || &obj[..4] != b"\x7fELF" || u16a(obj, 16) != 1 || u16a(obj, 18) != 62 {
        return Err("not an x86-64 ELF relocatable".into());
    }
    let shoff = u64a(obj, 40);
    let shnum = u16a(obj, 60);
    struct Sh { ty: usize, flags: usize, off: usize, size: usize, link: usize, info: usize, align: usize }
    let shs: Vec<Sh> = (0..shnum)
        .map(|i| {
            let o = shoff + i * 64;
            Sh { ty: u32a(obj, o + 4), flags: u64a(obj, o + 8), off: u64a(obj, o + 24), size: u64a(obj, o + 32), link: u32a(obj, o + 40), info: u32a(obj, o + 44), align: u64a(obj, o + 48).max(1) }
        })
        .collect();
    let mut sec_off = vec![usize::MAX; shnum];
    let mut cur = 0usize;
    for (i, s) in shs.iter().enumerate() {
        if s.flags & 2 != 0 {
            cur = (cur + s.align.max(16) - 1) / s.align.max(16) * s.align.max(16);
            sec_off[i] = cur;
            cur += s.size;
        }
    }
    let symtab = shs.iter().position(|s| s.ty == 2).ok_or("no symtab")?;
    let strt = shs[shs[symtab].link].off;
    let nsym = shs[symtab].size / 24;
    cur = (cur + 15) & !15;
    let tramp = cur; // one 16-byte trampoline + 8-byte GOT slot per symbol
    let got = tramp + nsym * 16;
    let total = ((got + nsym * 8) + 4095) & !4095;
    let base = unsafe { libc::mmap(std::ptr::null_mut(), total.max(4096), libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) } as *mut u8;
    if base as isize == -1 {
        return Err("mmap".into());
    }
    let mut img = Image { base, len: total.max(4096), syms: HashMap::new() };
    let b = base as usize;
    for (i, s) in shs.iter().enumerate() {
        if sec_off[i] != usize::MAX && s.ty != 8 {
            unsafe { std::ptr::copy_nonoverlapping(obj[s.off..].as_ptr(), base.add(sec_off[i]), s.size) };
        }
    }
    let mut addr = vec![0usize; nsym];
    for i in 0..nsym {
        let o = shs[symtab].off + i * 24;
        let name = cstr(obj, strt + u32a(obj, o));
        let shndx = u16a(obj, o + 6);
        let val = u64a(obj, o + 8);
        if shndx == 0 {
            if !name.is_empty() {
                addr[i] = resolve(&name).ok_or_else(|| format!("unresolved symbol {name}"))?;
            }
        } else if shndx < shnum && sec_off[shndx] != usize::MAX {
            addr[i] = b + sec_off[shndx] + val;
            if !name.is_empty() {
                img.syms.insert(name, addr[i]);
            }
        }
        unsafe {
            let t = base.add(tramp + i * 16);
            // movabs r11, addr ; jmp r11
            let mut code = vec![0x49u8, 0xBB];
            code.extend_from_slice(&(addr[i] as u64).to_le_bytes());
            code.extend_from_slice(&[0x41, 0xFF, 0xE3]);
            std::ptr::copy_nonoverlapping(code.as_ptr(), t, code.len());
            *(base.add(got + i * 8) as *mut u64) = addr[i] as u64;
        }
    }
    for s in shs.iter() {
        if s.ty != 4 || sec_off[s.info] == usize::MAX {
            continue;
        }
        for k in 0..s.size / 24 {
            let o = s.off + k * 24;
            let p = b + sec_off[s.info] + u64a(obj, o);
            let info = u64a(obj, o + 8);
            let add = u64a(obj, o + 16) as i64;
            let (sym, ty) = (info >> 32, info & 0xffff_ffff);
            let sa = addr[sym] as i64;
            let near = |t: i64| (t - p as i64) == ((t - p as i64) as i32) as i64;
            unsafe {
                match ty {
                    1 => (p as *mut i64).write_unaligned(sa + add),
                    2 | 4 => {
                        let t = if near(sa + add) { sa } else if ty == 4 { (b + tramp + sym * 16) as i64 } else { return Err("PC32 out of range".into()) };
                        (p as *mut i32).write_unaligned((t + add - p as i64) as i32)
                    }
                    9 | 41 | 42 => (p as *mut i32).write_unaligned(((b + got + sym * 8) as i64 + add - p as i64) as i32),
                    t => return Err(format!("unsupported relocation {t}")),
                }
            }
        }
    }
    Ok(img)
}
