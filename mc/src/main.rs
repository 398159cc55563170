fn main() { mcore::cli(mcore::checks::IDS, mcore::checks::check) }
