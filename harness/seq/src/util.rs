use iota_stronghold::procedures::*;
use iota_stronghold::*;

pub fn loc(v: &str, r: &str) -> Location {
    Location::generic(v.as_bytes().to_vec(), r.as_bytes().to_vec())
}

/// Does `location` hold exactly `expected`? Err(text) if the secret is not usable.
pub fn holds(c: &Client, location: &Location, expected: &[u8]) -> Result<bool, String> {
    let out = c
        .execute_procedure(CompareSecret { location: location.clone(), expected: expected.to_vec() })
        .map_err(|e| e.to_string())?;
    match out.as_slice() {
        [1] => Ok(true),
        [0] => Ok(false),
        o => Err(format!("unexpected compare output {o:?}")),
    }
}

/// A key provider with the 32-byte key `[b; 32]` (bit patterns that survive x25519 clamping differ).
pub fn kp(b: u8) -> KeyProvider {
    KeyProvider::try_from(vec![b; 32]).expect("32-byte key")
}

pub fn show(p: &[u8]) -> String {
    if p.len() > 40 {
        format!("<{} bytes #{:x}>", p.len(), mc::hash(&p) & 0xffffff)
    } else {
        p.iter()
            .flat_map(|b| std::ascii::escape_default(*b))
            .map(|b| b as char)
            .collect()
    }
}

pub fn show_loc(l: &Location) -> String {
    match l {
        Location::Generic { vault_path, record_path } => format!("({}/{})", show(vault_path), show(record_path)),
        Location::Counter { vault_path, counter } => format!("({}#{counter})", show(vault_path)),
    }
}
