build_v1 && exec "$V1" check C20
