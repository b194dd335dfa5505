// simfs.mjs - the simulated disk and POSIX file-system semantics on top of it.
// Deterministic, in memory, shared by all simulated processes of one world.
export class FsError extends Error {
  constructor(code, what) { super(`${code}: ${what || ""}`); this.code = code; }
}
const err = (c, w) => { throw new FsError(c, w); };

export const C = { O_RDONLY: 0, O_WRONLY: 1, O_RDWR: 2, O_CREAT: 0o100, O_EXCL: 0o200, O_TRUNC: 0o1000, O_APPEND: 0o2000, O_DIRECTORY: 0o200000, O_SYNC: 0o4010000, O_NOFOLLOW: 0o400000 };
const S_IFREG = 0o100000, S_IFDIR = 0o040000, S_IFLNK = 0o120000;

class Inode {
  constructor(fs, type, mode) {
    this.ino = fs.nextIno++; this.type = type; this.mode = mode & 0o7777; this.nlink = 1;
    this.data = type === "file" ? new Uint8Array(0) : null;
    this.entries = type === "dir" ? new Map() : null;
    this.target = null; this.mtime = fs.now(); this.uid = fs.uid; this.gid = fs.uid;
  }
}

export class SimFS {
  // now(): simulated ms
  constructor({ now, capacity = Infinity, uid = 1000 } = {}) {
    this.now = now || (() => 0);
    this.uid = uid;
    this.nextIno = 2;
    this.capacity = capacity;
    this.used = 0;
    this.readonly = false;
    this.root = new Inode(this, "dir", 0o755);
    this.version = 0; // bumped on every visible mutation
    this.journal = null; // with power failures: [{undo}] of the directory operations that may still be lost
  }
  // ---- power failures: what has not been synchronised may be lost
  // Directory operations reach the disk in order (a journal), each at some time after it was done;
  // the bytes of a file reach it in any order, unless fsync asked for them.
  durable() { // from here on; everything there is now is on the disk
    this.journal = [];
    for (const [, n] of this.walk()) if (n.type === "file") { n.disk = n.data; }
  }
  did(undo) { if (this.journal) this.journal.push(undo); }
  fsync(f, whole = true) {
    if (!this.journal || !f.node) return;
    f.node.disk = f.node.data;
    if (whole || f.node.type === "dir") this.journal = []; // the journal is written up to here
  }
  powerLoss(r) { // r: generator that says what was lost
    const lost = { entries: 0, files: 0 };
    const files = new Set([...this.walk()].map(([, n]) => n).filter((n) => n.type === "file"));
    const keep = r.weighted([[4, this.journal.length], [2, 0], [4, r.int(this.journal.length + 1)]]);
    while (this.journal.length > keep) { this.journal.pop()(); lost.entries++; }
    this.journal = [];
    for (const [, n] of this.walk()) if (n.type === "file") files.add(n);
    this.used = 0;
    for (const n of files) {
      const d = n.disk ?? new Uint8Array(0), c = n.data;
      if (d !== c) {
        const holes = () => { const x = c.slice(); const at = r.int(c.length + 1); x.fill(0, at, r.chance(0.5) ? c.length : Math.min(c.length, at + r.pick([512, 4096]))); return x; };
        n.data = r.weighted([[3, () => c], [4, () => d], [2, () => c.slice(0, r.int(c.length + 1))], [2, holes], [1, () => new Uint8Array(c.length)]])();
        if (n.data !== c) lost.files++;
      }
      n.disk = n.data; this.used += n.data.length;
    }
    this.version++;
    return lost;
  }
  // ---- path walking
  split(p) { return p.split("/").filter((x) => x !== "" && x !== "."); }
  abs(cwd, p) { return p.startsWith("/") ? p : cwd + "/" + p; }
  lookup(cwd, p, { follow = true, parent = false } = {}, depth = 0) {
    if (depth > 16) err("ELOOP", p);
    if (p === "") err("ENOENT", p);
    const path = this.abs(cwd, p);
    const parts = this.split(path);
    const trailing = /\/\.?$/.test(path);
    let node = this.root; const stack = [this.root];
    for (let i = 0; i < parts.length; i++) {
      const last = i === parts.length - 1;
      if (node.type !== "dir") err("ENOTDIR", p);
      if (!this.can(node, 1)) err("EACCES", p);
      const name = parts[i];
      if (name.length > 255) err("ENAMETOOLONG", p);
      if (name === "..") { if (stack.length > 1) stack.pop(); node = stack[stack.length - 1]; continue; }
      if (last && parent) return { dir: node, name, node: node.entries.get(name) };
      const next = node.entries.get(name);
      if (!next) err("ENOENT", p);
      if (next.type === "symlink" && (!last || follow || trailing)) {
        const rest = parts.slice(i + 1).join("/");
        const base = "/" + this.pathOf(stack);
        const t = next.target.startsWith("/") ? next.target : base + "/" + next.target;
        return this.lookup("/", rest ? t + "/" + rest : t, { follow, parent }, depth + 1);
      }
      node = next; stack.push(node);
    }
    if (parent) return { dir: node, name: null, node };
    if (trailing && node.type !== "dir") err("ENOTDIR", p);
    return node;
  }
  pathOf(stack) {
    const names = [];
    for (let i = 1; i < stack.length; i++) for (const [k, v] of stack[i - 1].entries) if (v === stack[i]) { names.push(k); break; }
    return names.join("/");
  }
  can(node, bit) { // owner bits only: every simulated process runs as the owner, an unprivileged user
    if (node.uid !== this.uid) return ((node.mode & 7) & bit) === bit;
    return (((node.mode >> 6) & 7) & bit) === bit;
  }
  touch(n) { n.mtime = this.now(); this.version++; }
  grow(delta) { this.used += delta; }
  room() { return Math.max(0, this.capacity - this.used); }
  // ---- operations (each is atomic at the instant the simulator runs it)
  open(ctx, p, flags, mode) {
    const acc = flags & 3;
    let { dir, name, node } = this.lookup(ctx.cwd, p, { parent: true });
    let created = false;
    if (name === null) node = dir;
    if (node && node.type === "symlink") {
      if (flags & C.O_CREAT && flags & C.O_EXCL) err("EEXIST", p);
      if (flags & C.O_NOFOLLOW) err("ELOOP", p);
      const stackPath = node.target.startsWith("/") ? node.target : this.dirPath(ctx.cwd, p) + "/" + node.target;
      return this.open({ ...ctx, cwd: "/", alloc: ctx.alloc }, stackPath, flags, mode);
    }
    if (!node) {
      if (!(flags & C.O_CREAT)) err("ENOENT", p);
      if (/\/$/.test(p)) err("EISDIR", p);
      if (this.readonly) err("EROFS", p);
      if (!this.can(dir, 2)) err("EACCES", p);
      if (this.room() <= 0) err("ENOSPC", p);
      node = new Inode(this, "file", (mode & ~ctx.umask) & 0o7777);
      dir.entries.set(name, node); this.touch(dir); created = true; this.did(() => dir.entries.delete(name));
    } else {
      if (flags & C.O_CREAT && flags & C.O_EXCL) err("EEXIST", p);
      if (node.type === "dir" && acc !== C.O_RDONLY) err("EISDIR", p);
      if (node.type === "dir" && flags & C.O_CREAT) err("EISDIR", p);
      if (flags & C.O_DIRECTORY && node.type !== "dir") err("ENOTDIR", p);
      if (node.type === "file" && /\/$/.test(p)) err("ENOTDIR", p);
      if (acc !== C.O_RDONLY && this.readonly) err("EROFS", p);
    }
    if (!created) {
      if (acc !== C.O_WRONLY && !this.can(node, 4)) err("EACCES", p);
      if (acc !== C.O_RDONLY && !this.can(node, 2)) err("EACCES", p);
    }
    if (flags & C.O_TRUNC && node.type === "file" && acc !== C.O_RDONLY && node.data.length) {
      this.grow(-node.data.length); node.data = new Uint8Array(0); this.touch(node);
    }
    return { node, flags, acc, pos: 0, path: this.abs(ctx.cwd, p) };
  }
  dirPath(cwd, p) { const a = "/" + this.split(this.abs(cwd, p)).slice(0, -1).join("/"); return a; }
  read(f, len, position) {
    if (f.acc === C.O_WRONLY) err("EBADF", "read");
    if (f.node.type === "dir") err("EISDIR", "read");
    const at = position === null ? f.pos : position;
    const out = f.node.data.slice(at, at + len);
    if (position === null) f.pos += out.length;
    return out;
  }
  write(f, bytes, position) {
    if (f.acc === C.O_RDONLY) err("EBADF", "write");
    const d = f.node.data;
    let at = position === null ? f.pos : position;
    if (f.flags & C.O_APPEND) at = d.length;
    let n = bytes.length;
    const need = Math.max(0, at + n - d.length);
    if (need > this.room()) { n = Math.max(0, n - (need - this.room())); if (n <= 0 && bytes.length > 0) err("ENOSPC", "write"); }
    const end = Math.max(d.length, at + n);
    const nd = new Uint8Array(end);
    nd.set(d); nd.set(bytes.subarray(0, n), at);
    this.grow(end - d.length);
    f.node.data = nd; this.touch(f.node);
    if (position === null) f.pos = at + n;
    return n;
  }
  truncNode(node, len) {
    if (node.type !== "file") err("EISDIR", "truncate");
    if (len < 0) err("EINVAL", "truncate");
    const nd = new Uint8Array(len); nd.set(node.data.subarray(0, len));
    this.grow(len - node.data.length); node.data = nd; this.touch(node);
  }
  truncate(ctx, p, len) { const n = this.lookup(ctx.cwd, p); if (!this.can(n, 2)) err("EACCES", p); this.truncNode(n, len); }
  ftruncate(f, len) { if (f.acc === C.O_RDONLY) err("EINVAL", "ftruncate"); this.truncNode(f.node, len); }
  statOf(n) {
    const t = n.type === "dir" ? S_IFDIR : n.type === "symlink" ? S_IFLNK : S_IFREG;
    const size = n.type === "file" ? n.data.length : n.type === "symlink" ? n.target.length : 4096;
    return { dev: 1, ino: n.ino, mode: t | n.mode, nlink: n.nlink, uid: n.uid, gid: n.gid, rdev: 0, size, blksize: 4096, blocks: (size + 511) >> 9,
      atimeMs: n.mtime, mtimeMs: n.mtime, ctimeMs: n.mtime, isDirectory: () => n.type === "dir", isFile: () => n.type === "file", isSymbolicLink: () => n.type === "symlink" };
  }
  stat(ctx, p) { return this.statOf(this.lookup(ctx.cwd, p)); }
  lstat(ctx, p) { return this.statOf(this.lookup(ctx.cwd, p, { follow: false })); }
  fstat(f) { return this.statOf(f.node); }
  wdir(dir, p) { if (this.readonly) err("EROFS", p); if (!this.can(dir, 3)) err("EACCES", p); }
  mkdir(ctx, p, mode) {
    const { dir, name, node } = this.lookup(ctx.cwd, p, { parent: true });
    if (node || name === null) err("EEXIST", p);
    this.wdir(dir, p);
    if (this.room() <= 0) err("ENOSPC", p);
    dir.entries.set(name, new Inode(this, "dir", (mode & ~ctx.umask) & 0o7777)); this.touch(dir); this.did(() => dir.entries.delete(name));
  }
  rmdir(ctx, p) {
    const { dir, name, node } = this.lookup(ctx.cwd, p, { parent: true });
    if (!node) err("ENOENT", p);
    if (node.type !== "dir") err("ENOTDIR", p);
    if (node.entries.size) err("ENOTEMPTY", p);
    if (name === null) err("EBUSY", p);
    this.wdir(dir, p);
    dir.entries.delete(name); this.touch(dir); this.did(() => dir.entries.set(name, node));
  }
  unlink(ctx, p) {
    const { dir, name, node } = this.lookup(ctx.cwd, p, { parent: true });
    if (!node) err("ENOENT", p);
    if (node.type === "dir") err("EISDIR", p);
    this.wdir(dir, p);
    dir.entries.delete(name); node.nlink--; this.touch(dir); this.did(() => { dir.entries.set(name, node); node.nlink++; });
    if (node.type === "file" && node.nlink <= 0) this.grow(-node.data.length);
  }
  rename(ctx, a, b) {
    const s = this.lookup(ctx.cwd, a, { parent: true });
    if (!s.node) err("ENOENT", a);
    if (s.name === null) err("EBUSY", a);
    const d = this.lookup(ctx.cwd, b, { parent: true });
    if (d.name === null) err("EBUSY", b);
    this.wdir(s.dir, a); this.wdir(d.dir, b);
    if (d.node === s.node) return;
    if (d.node) {
      if (d.node.type === "dir") {
        if (s.node.type !== "dir") err("EISDIR", b);
        if (d.node.entries.size) err("ENOTEMPTY", b);
      } else if (s.node.type === "dir") err("ENOTDIR", b);
      d.node.nlink--;
      if (d.node.type === "file" && d.node.nlink <= 0) this.grow(-d.node.data.length);
    }
    s.dir.entries.delete(s.name); d.dir.entries.set(d.name, s.node);
    this.did(() => { if (d.node) { d.dir.entries.set(d.name, d.node); d.node.nlink++; } else d.dir.entries.delete(d.name); s.dir.entries.set(s.name, s.node); });
    this.touch(s.dir); this.touch(d.dir);
  }
  link(ctx, a, b) {
    const n = this.lookup(ctx.cwd, a, { follow: false });
    if (n.type === "dir") err("EPERM", a);
    const d = this.lookup(ctx.cwd, b, { parent: true });
    if (d.node) err("EEXIST", b);
    this.wdir(d.dir, b);
    d.dir.entries.set(d.name, n); n.nlink++; this.touch(d.dir); this.did(() => { d.dir.entries.delete(d.name); n.nlink--; });
  }
  symlink(ctx, target, p) {
    const d = this.lookup(ctx.cwd, p, { parent: true });
    if (d.node) err("EEXIST", p);
    this.wdir(d.dir, p);
    const n = new Inode(this, "symlink", 0o777); n.target = target;
    d.dir.entries.set(d.name, n); this.touch(d.dir); this.did(() => d.dir.entries.delete(d.name));
  }
  readlink(ctx, p) { const n = this.lookup(ctx.cwd, p, { follow: false }); if (n.type !== "symlink") err("EINVAL", p); return n.target; }
  readdir(ctx, p) {
    const n = this.lookup(ctx.cwd, p);
    if (n.type !== "dir") err("ENOTDIR", p);
    if (!this.can(n, 4)) err("EACCES", p);
    return [...n.entries.keys()];
  }
  chmodNode(n, mode) { if (n.uid !== this.uid) err("EPERM", "chmod"); const old = n.mode; n.mode = mode & 0o7777; this.touch(n); this.did(() => { n.mode = old; }); }
  chmod(ctx, p, mode) { this.chmodNode(this.lookup(ctx.cwd, p), mode); }
  utimes(ctx, p, a, m) { const n = this.lookup(ctx.cwd, p); n.mtime = m * 1000; this.version++; }

  // ---- god-mode helpers for scenario setup, environment actors and oracles
  ctx() { return { cwd: "/", umask: 0 }; }
  mkdirp(p) {
    let node = this.root;
    for (const name of this.split(p)) {
      let n = node.entries.get(name);
      if (!n) { n = new Inode(this, "dir", 0o755); node.entries.set(name, n); this.version++; }
      node = n;
    }
    return node;
  }
  put(p, bytes, mode = 0o644) {
    const parts = this.split(p); const name = parts.pop();
    const dir = this.mkdirp(parts.join("/"));
    const old = dir.entries.get(name);
    if (old && old.type === "file") this.grow(-old.data.length);
    const n = new Inode(this, "file", mode); n.data = bytes.slice(); this.grow(bytes.length);
    dir.entries.set(name, n); this.version++;
    return n;
  }
  peekNode(p, follow = true) { try { const save = this.can; this.can = () => true; try { return this.lookup("/", p, { follow }); } finally { delete this.can; } } catch (e) { if (e instanceof FsError) return null; throw e; } }
  peek(p) { const n = this.peekNode(p); return n && n.type === "file" ? n.data : null; }
  // walk every file reachable from the root: [path, node]
  *walk(node = this.root, base = "") {
    for (const [k, n] of [...node.entries].sort((a, b) => (a[0] < b[0] ? -1 : 1))) {
      const p = base + "/" + k;
      yield [p, n];
      if (n.type === "dir") yield* this.walk(n, p);
    }
  }
}
