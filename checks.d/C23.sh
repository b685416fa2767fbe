build_serde && exec "$SER" check C23
