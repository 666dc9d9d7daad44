// generated: every combination of the cell! and fcell! macros
fn macro_ref(t: &str, tab: bool, ab: &str, n: &[u32]) -> (String, String) {
    match (tab, ab) {
        (false, "00") => (cell!(n[0], n[1]).to_string(), fcell!(n[0], n[1])),
        (false, "01") => (cell!(n[0], abs n[1]).to_string(), fcell!(n[0], abs n[1])),
        (false, "10") => (cell!(abs n[0], n[1]).to_string(), fcell!(abs n[0], n[1])),
        (false, "11") => (cell!(abs n[0], abs n[1]).to_string(), fcell!(abs n[0], abs n[1])),
        (false, "0000") => (cell!(n[0], n[1], n[2], n[3]).to_string(), fcell!(n[0], n[1], n[2], n[3])),
        (false, "0001") => (cell!(n[0], n[1], n[2], abs n[3]).to_string(), fcell!(n[0], n[1], n[2], abs n[3])),
        (false, "0010") => (cell!(n[0], n[1], abs n[2], n[3]).to_string(), fcell!(n[0], n[1], abs n[2], n[3])),
        (false, "0011") => (cell!(n[0], n[1], abs n[2], abs n[3]).to_string(), fcell!(n[0], n[1], abs n[2], abs n[3])),
        (false, "0100") => (cell!(n[0], abs n[1], n[2], n[3]).to_string(), fcell!(n[0], abs n[1], n[2], n[3])),
        (false, "0101") => (cell!(n[0], abs n[1], n[2], abs n[3]).to_string(), fcell!(n[0], abs n[1], n[2], abs n[3])),
        (false, "0110") => (cell!(n[0], abs n[1], abs n[2], n[3]).to_string(), fcell!(n[0], abs n[1], abs n[2], n[3])),
        (false, "0111") => (cell!(n[0], abs n[1], abs n[2], abs n[3]).to_string(), fcell!(n[0], abs n[1], abs n[2], abs n[3])),
        (false, "1000") => (cell!(abs n[0], n[1], n[2], n[3]).to_string(), fcell!(abs n[0], n[1], n[2], n[3])),
        (false, "1001") => (cell!(abs n[0], n[1], n[2], abs n[3]).to_string(), fcell!(abs n[0], n[1], n[2], abs n[3])),
        (false, "1010") => (cell!(abs n[0], n[1], abs n[2], n[3]).to_string(), fcell!(abs n[0], n[1], abs n[2], n[3])),
        (false, "1011") => (cell!(abs n[0], n[1], abs n[2], abs n[3]).to_string(), fcell!(abs n[0], n[1], abs n[2], abs n[3])),
        (false, "1100") => (cell!(abs n[0], abs n[1], n[2], n[3]).to_string(), fcell!(abs n[0], abs n[1], n[2], n[3])),
        (false, "1101") => (cell!(abs n[0], abs n[1], n[2], abs n[3]).to_string(), fcell!(abs n[0], abs n[1], n[2], abs n[3])),
        (false, "1110") => (cell!(abs n[0], abs n[1], abs n[2], n[3]).to_string(), fcell!(abs n[0], abs n[1], abs n[2], n[3])),
        (false, "1111") => (cell!(abs n[0], abs n[1], abs n[2], abs n[3]).to_string(), fcell!(abs n[0], abs n[1], abs n[2], abs n[3])),
        (true, "00") => (cell!(t => n[0], n[1]).to_string(), fcell!(t => n[0], n[1])),
        (true, "01") => (cell!(t => n[0], abs n[1]).to_string(), fcell!(t => n[0], abs n[1])),
        (true, "10") => (cell!(t => abs n[0], n[1]).to_string(), fcell!(t => abs n[0], n[1])),
        (true, "11") => (cell!(t => abs n[0], abs n[1]).to_string(), fcell!(t => abs n[0], abs n[1])),
        (true, "0000") => (cell!(t => n[0], n[1], n[2], n[3]).to_string(), fcell!(t => n[0], n[1], n[2], n[3])),
        (true, "0001") => (cell!(t => n[0], n[1], n[2], abs n[3]).to_string(), fcell!(t => n[0], n[1], n[2], abs n[3])),
        (true, "0010") => (cell!(t => n[0], n[1], abs n[2], n[3]).to_string(), fcell!(t => n[0], n[1], abs n[2], n[3])),
        (true, "0011") => (cell!(t => n[0], n[1], abs n[2], abs n[3]).to_string(), fcell!(t => n[0], n[1], abs n[2], abs n[3])),
        (true, "0100") => (cell!(t => n[0], abs n[1], n[2], n[3]).to_string(), fcell!(t => n[0], abs n[1], n[2], n[3])),
        (true, "0101") => (cell!(t => n[0], abs n[1], n[2], abs n[3]).to_string(), fcell!(t => n[0], abs n[1], n[2], abs n[3])),
        (true, "0110") => (cell!(t => n[0], abs n[1], abs n[2], n[3]).to_string(), fcell!(t => n[0], abs n[1], abs n[2], n[3])),
        (true, "0111") => (cell!(t => n[0], abs n[1], abs n[2], abs n[3]).to_string(), fcell!(t => n[0], abs n[1], abs n[2], abs n[3])),
        (true, "1000") => (cell!(t => abs n[0], n[1], n[2], n[3]).to_string(), fcell!(t => abs n[0], n[1], n[2], n[3])),
        (true, "1001") => (cell!(t => abs n[0], n[1], n[2], abs n[3]).to_string(), fcell!(t => abs n[0], n[1], n[2], abs n[3])),
        (true, "1010") => (cell!(t => abs n[0], n[1], abs n[2], n[3]).to_string(), fcell!(t => abs n[0], n[1], abs n[2], n[3])),
        (true, "1011") => (cell!(t => abs n[0], n[1], abs n[2], abs n[3]).to_string(), fcell!(t => abs n[0], n[1], abs n[2], abs n[3])),
        (true, "1100") => (cell!(t => abs n[0], abs n[1], n[2], n[3]).to_string(), fcell!(t => abs n[0], abs n[1], n[2], n[3])),
        (true, "1101") => (cell!(t => abs n[0], abs n[1], n[2], abs n[3]).to_string(), fcell!(t => abs n[0], abs n[1], n[2], abs n[3])),
        (true, "1110") => (cell!(t => abs n[0], abs n[1], abs n[2], n[3]).to_string(), fcell!(t => abs n[0], abs n[1], abs n[2], n[3])),
        (true, "1111") => (cell!(t => abs n[0], abs n[1], abs n[2], abs n[3]).to_string(), fcell!(t => abs n[0], abs n[1], abs n[2], abs n[3])),
        _ => panic!("harness: macro"),
    }
}
