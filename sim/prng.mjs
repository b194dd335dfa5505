// prng.mjs - the only source of randomness.  sfc32 seeded by splitmix over strings/ints.
function mix(h, x) { h = Math.imul(h ^ x, 0x9E3779B1); h ^= h >>> 15; h = Math.imul(h, 0x85EBCA77); h ^= h >>> 13; return h >>> 0; }
export class PRNG {
  constructor(...seeds) {
    const st = [0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344];
    const s = seeds.map(String).join("\u0000");
    for (let i = 0; i < 4; i++) {
      let h = st[i];
      for (let j = 0; j < s.length; j++) h = mix(h, s.charCodeAt(j) + i * 0x10001);
      st[i] = h >>> 0;
    }
    [this.a, this.b, this.c] = st; this.d = st[3] | 1;
    for (let i = 0; i < 16; i++) this.u32();
  }
  u32() {
    const t = (((this.a + this.b) >>> 0) + this.d) >>> 0;
    this.d = (this.d + 1) >>> 0;
    this.a = (this.b ^ (this.b >>> 9)) >>> 0;
    this.b = (this.c + (this.c << 3)) >>> 0;
    this.c = ((this.c << 21) | (this.c >>> 11)) >>> 0;
    this.c = (this.c + t) >>> 0;
    return t;
  }
  float() { return this.u32() / 4294967296; }
  int(n) { return n <= 1 ? 0 : Math.floor(this.float() * n); }
  range(a, b) { return a + this.int(b - a + 1); }
  chance(p) { return this.float() < p; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(pairs) { // [[w, v], ...]
    let t = 0; for (const [w] of pairs) t += w;
    let x = this.float() * t;
    for (const [w, v] of pairs) { x -= w; if (x < 0) return v; }
    return pairs[pairs.length - 1][1];
  }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  sample(a, k) { return this.shuffle(a.slice()).slice(0, k); }
  fill(u8) { for (let i = 0; i < u8.length; i++) u8[i] = this.u32() >>> 11; return u8; }
}
