// Which deviations a check owns. A deviation has causes (why the model expected an error) or none.
export const view = (...names) => (d) => d.kind === 'view' && names.includes(d.m);
// Answers of these methods; `but`: causes that are another property's business.
export const res = (ms, but = []) => (d) => d.kind === 'res' && ms.includes(d.m) && !(d.causes.length && d.causes.every((c) => but.includes(c)));
export const cause = (...cs) => (d) => (d.kind === 'res' || d.kind === 'dupid') && d.causes.some((c) => cs.includes(c));
export const any = (...fs) => (d, w) => fs.some((f) => f(d, w));
export const OWN = ['mint', 'icrc7_transfer', 'icrc37_transfer_from', 'burn_nft'];
export const n = (s, k) => s[k] ?? 0;
