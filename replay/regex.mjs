// Strings that match (or nearly match) a JavaScript regular expression: a small
// recursive-descent reader of the pattern that writes a sample as it reads.
const ANY = ['a', 'Z', '0', ' ', '-', '.', '/', '@', '<', '>', '"', '\\', '\n', '\t', '\u00e9', '\u{1f600}', '%', '+', '#', '_', ':', ',', '=', '&', '\u0301', '\ufeff', '\u0001'];
const D = '0123456789', W = 'abcXYZ019_', SP = [' ', '\t', '\n', '\r', '\u00a0'];
export function sample(src, r, flags = '') {
  let i = 0;
  const groups = [];
  const not = (test) => { for (let k = 0; k < 30; k++) { const c = r.pick(ANY); if (!test(c)) return c; } return 'a'; };
  const esc = () => {
    const c = src[i++];
    switch (c) {
      case 'd': return r.pick([...D]);
      case 'D': return not((x) => /\d/.test(x));
      case 'w': return r.pick([...W]);
      case 'W': return not((x) => /\w/.test(x));
      case 's': return r.pick(SP);
      case 'S': return not((x) => /\s/.test(x));
      case 'b': case 'B': return '';
      case 'n': return '\n';
      case 'r': return '\r';
      case 't': return '\t';
      case 'f': return '\f';
      case 'v': return '\v';
      case '0': return '\0';
      case 'x': { const h = src.slice(i, i + 2); i += 2; return String.fromCharCode(parseInt(h, 16)); }
      case 'u': {
        if (src[i] === '{') { const j = src.indexOf('}', i); const h = src.slice(i + 1, j); i = j + 1; return String.fromCodePoint(parseInt(h, 16)); }
        const h = src.slice(i, i + 4); i += 4; return String.fromCharCode(parseInt(h, 16));
      }
      case 'p': case 'P': {
        const j = src.indexOf('}', i); i = j + 1;
        return r.pick(['\u00e9', 'a', 'A', '\u{1f600}', '\u0301', '1', '\u4e2d']);
      }
      case 'k': { const j = src.indexOf('>', i); i = j + 1; return groups[0] ?? ''; }
      default: return /[1-9]/.test(c) ? groups[Number(c) - 1] ?? '' : c ?? '';
    }
  };
  const cls = () => {
    let neg = false;
    if (src[i] === '^') { neg = true; i++; }
    const start = i, items = [];
    while (i < src.length && src[i] !== ']') {
      let c = src[i] === '\\' ? (i++, esc()) : src[i++];
      if (src[i] === '-' && src[i + 1] !== ']' && i + 1 < src.length && c.length === 1) {
        i++;
        const d = src[i] === '\\' ? (i++, esc()) : src[i++];
        const a = c.charCodeAt(0), b = d.charCodeAt(0);
        if (b >= a) c = String.fromCharCode(a + r.int(b - a + 1));
      }
      items.push(c);
    }
    const text = src.slice(start, i);
    i++;
    if (!neg) return items.length ? r.pick(items) : '';
    let re;
    try { re = new RegExp(`[${text}]`, flags.replace(/[gy]/g, '')); } catch { return 'a'; }
    return not((x) => re.test(x));
  };
  const alt = () => {
    const outs = [seq()];
    while (src[i] === '|') { i++; outs.push(seq()); }
    return r.pick(outs);
  };
  const seq = () => {
    let out = '';
    while (i < src.length && src[i] !== '|' && src[i] !== ')') {
      const at = i;
      let a = atom(), n = 1, m = /^(?:[*+?]|\{(\d+)(?:,(\d*))?\})\??/.exec(src.slice(i));
      if (m) {
        i += m[0].length;
        const end = i;
        n = m[0][0] === '*' ? r.int(4) : m[0][0] === '+' ? 1 + r.int(3) : m[0][0] === '?' ? r.int(2)
          : m[2] === undefined ? Number(m[1]) : m[2] === '' ? Number(m[1]) + r.int(3) : Number(m[1]) + r.int(Number(m[2]) - Number(m[1]) + 1);
        n = Math.min(n, 3000);
        for (let k = 0; k < n; k++) {
          if (k < 50 && k > 0) { i = at; a = atom(); }
          out += a;
        }
        i = end;
        continue;
      }
      out += a;
    }
    return out;
  };
  const atom = () => {
    const c = src[i++];
    if (c === '\\') return esc();
    if (c === '[') return cls();
    if (c === '.') return r.pick(ANY.filter((x) => x !== '\n'));
    if (c === '^' || c === '$') return '';
    if (c === '(') {
      let skip = false;
      const m = /^\?(?::|=|!|<=|<!|<[A-Za-z_$][\w$]*>)/.exec(src.slice(i));
      if (m) { i += m[0].length; skip = /^\?<?!$/.test(m[0]); }
      const v = alt();
      if (src[i] === ')') i++;
      if (!m || m[0].length > 3) groups.push(v);
      return skip ? '' : v;
    }
    return c;
  };
  try { const v = alt(); return flags.includes('i') && r.chance(0.5) ? (r.chance(0.5) ? v.toUpperCase() : v.toLowerCase()) : v; } catch { return ''; }
}
