//! Recorded edits of one page and the search for a one-after-the-other order.
use super::show;
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// everything on the page, as read
    All(Vec<Vec<u8>>),
    Count(usize),
    Row(usize, Vec<u8>),
    Append(Vec<u8>),
    Insert(usize, Vec<u8>),
    Remove(usize),
    Initialize,
}

/// What one task did to the page while it held it.
#[derive(Clone, Debug)]
pub struct Session {
    pub task: String,
    /// access asked for / granted / released
    pub asked: u64,
    pub granted: u64,
    pub released: u64,
    pub steps: Vec<Step>,
}

fn apply(rows: &mut Vec<Vec<u8>>, s: &Session) -> Result<(), String> {
    for (k, step) in s.steps.iter().enumerate() {
        let bad = |why: String| Err(format!("step {} of the access by {} at {}: {}", k, s.task, s.granted, why));
        match step {
            Step::All(seen) => {
                if seen != rows {
                    let at = (0..seen.len().max(rows.len())).find(|&i| seen.get(i) != rows.get(i)).unwrap_or(0);
                    return bad(format!(
                        "{} rows read, {} expected; row {} is {} instead of {}",
                        seen.len(),
                        rows.len(),
                        at,
                        seen.get(at).map(|r| show(r)).unwrap_or("missing".into()),
                        rows.get(at).map(|r| show(r)).unwrap_or("nothing".into())
                    ));
                }
            }
            Step::Count(n) => {
                if *n != rows.len() {
                    return bad(format!("{} rows counted, {} expected", n, rows.len()));
                }
            }
            Step::Row(i, r) => {
                if rows.get(*i) != Some(r) {
                    return bad(format!(
                        "row {} reads {}, {} expected",
                        i,
                        show(r),
                        rows.get(*i).map(|r| show(r)).unwrap_or("nothing".into())
                    ));
                }
            }
            Step::Append(r) => rows.push(r.clone()),
            Step::Insert(i, r) => {
                if *i > rows.len() {
                    return bad(format!("inserted at {} of {} rows", i, rows.len()));
                }
                rows.insert(*i, r.clone());
            }
            Step::Remove(i) => {
                if *i >= rows.len() {
                    return bad(format!("removed row {} of {}", i, rows.len()));
                }
                rows.remove(*i);
            }
            Step::Initialize => rows.clear(),
        }
    }
    Ok(())
}

/// Ok if some order consistent with real time explains every result.
/// Err explains the mismatch in the order of the grants.
pub fn check(mut sessions: Vec<Session>) -> Result<bool, String> {
    sessions.sort_by_key(|s| s.granted);
    let mut rows = Vec::new();
    let first = match sessions.iter().try_for_each(|s| apply(&mut rows, s)) {
        Ok(()) => return Ok(true),
        Err(e) => e,
    };
    // The grants do not explain it: search all orders (Wing and Gong, with memory).
    let n = sessions.len();
    if n > 60 {
        return Err(first);
    }
    let mut seen: HashSet<(u64, Vec<Vec<u8>>)> = HashSet::new();
    let mut stack: Vec<(u64, Vec<Vec<u8>>)> = vec![(0, Vec::new())];
    let mut budget = 200_000u64;
    while let Some((done, rows)) = stack.pop() {
        if done.count_ones() as usize == n {
            return Ok(false);
        }
        if budget == 0 || !seen.insert((done, rows.clone())) {
            continue;
        }
        budget -= 1;
        let horizon = (0..n).filter(|i| done >> i & 1 == 0).map(|i| sessions[i].released).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 0 && sessions[i].asked <= horizon {
                let mut r = rows.clone();
                if apply(&mut r, &sessions[i]).is_ok() {
                    stack.push((done | 1 << i, r));
                }
            }
        }
    }
    if budget == 0 {
        // not decided: stay silent rather than guess
        return Ok(false);
    }
    Err(first)
}
