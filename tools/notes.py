"""Texts for MANIFEST.json."""
NOTES = {}
NOT_APPLICABLE = {
    "C21": "the editor plugins are written in Lua and TypeScript and run inside Neovim and VS Code; there is no compiled intermediate representation of them, nor the editors' APIs, that could be executed symbolically here",
}
HOOKS = {"guard": "cfg(ethersync_verif)", "enable": "RUSTFLAGS=--cfg ethersync_verif", "source_commits": ["1db5d4f45951f189a88962653a57174f4afdf4c8"]}
