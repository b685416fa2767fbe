build_serde && exec "$SER" check C22
