build_v1 && build_lsp && exec "$V1" check C25
