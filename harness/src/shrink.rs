//! Minimisation of failing sources: removes and simplifies pieces as long as the failure stays.
/// Splits a source into words, numbers, blank runs and single characters.
pub fn pieces(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let class = |c: char| if c.is_alphanumeric() || c == '_' || c == '$' { 1 } else if c.is_whitespace() { 2 } else { 0 };
    let mut prev = 9;
    for c in s.chars() {
        let k = class(c);
        if k != 0 && k == prev { out.last_mut().unwrap().push(c); } else { out.push(c.to_string()); }
        prev = k;
    }
    out
}
/// `fails(candidates)` tells for each candidate whether it still fails; `budget` limits the candidates tried.
pub fn shrink(src: &str, mut budget: usize, fails: &mut dyn FnMut(&[String]) -> Vec<bool>) -> String {
    let mut cur = pieces(src);
    let mut size = (cur.len() / 2).max(1);
    while budget > 0 {
        let mut progress = false;
        let mut at = 0;
        while at < cur.len() && budget > 0 {
            let cands: Vec<(usize, Vec<String>)> = (0..16).map(|k| at + k * size).take_while(|p| *p < cur.len()).map(|p| (p, [&cur[..p], &cur[(p + size).min(cur.len())..]].concat())).collect();
            let texts: Vec<String> = cands.iter().map(|c| c.1.concat()).collect();
            budget = budget.saturating_sub(texts.len());
            let res = fails(&texts);
            match res.iter().position(|b| *b) {
                Some(i) => { at = cands[i].0; cur = cands[i].1.clone(); progress = true; }
                None => at += size * 16,
            }
        }
        if size > 1 { size /= 2; } else if !progress { break; }
    }
    // simpler pieces
    for i in 0..cur.len() {
        if budget == 0 { break; }
        let cands: Vec<Vec<String>> = ["a", "0", " "].iter().filter(|r| **r != cur[i] && !(cur[i].len() == 1 && (**r == "a" || cur[i].starts_with(|c: char| !c.is_alphanumeric())))).map(|r| { let mut c = cur.clone(); c[i] = r.to_string(); c }).collect();
        if cands.is_empty() { continue; }
        let texts: Vec<String> = cands.iter().map(|c| c.concat()).collect();
        budget = budget.saturating_sub(texts.len());
        if let Some(k) = fails(&texts).iter().position(|b| *b) { cur = cands[k].clone(); }
    }
    cur.concat()
}
