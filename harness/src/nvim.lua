-- Runs in Neovim next to the plugin and does what the harness says.
-- The plugin's connection to `ethersync client` ends here.

local inp = assert(io.open(vim.env.VERIF_IN, "r"))
local out = assert(io.open(vim.env.VERIF_OUT, "w"))

local sent = {}
local callbacks = {}
local next_id = 0
local dispatchers
local connections = 0

vim.lsp.rpc.start = function(a, b, c)
    dispatchers = type(b) == "table" and b.notification and b or c
    connections = connections + 1
    return {
        request = function(method, params, callback)
            next_id = next_id + 1
            callbacks[next_id] = callback
            table.insert(sent, vim.json.encode({ id = next_id, method = method, params = params }))
            return true, next_id
        end,
        notify = function(method, params)
            table.insert(sent, vim.json.encode({ method = method, params = params }))
            return true
        end,
        is_closing = function()
            return false
        end,
        terminate = function() end,
    }
end

-- Neovim cuts characters in two in some situations (when appending to a selection, for example).
-- There is no way to report that.
local broken = false

local function check(buffer)
    for _, l in ipairs(vim.api.nvim_buf_get_lines(buffer, 0, -1, true)) do
        if l:find("[\128-\255]") then
            l = l:gsub("[\240-\244][\128-\191][\128-\191][\128-\191]", ".")
            l = l:gsub("[\224-\239][\128-\191][\128-\191]", ".")
            l = l:gsub("[\194-\223][\128-\191]", ".")
            broken = broken or l:find("[\128-\255]") ~= nil
        end
    end
end

vim.api.nvim_create_autocmd({ "BufReadPost", "BufNewFile" }, {
    callback = function(ev)
        vim.api.nvim_buf_attach(ev.buf, false, {
            on_lines = function()
                check(ev.buf)
            end,
        })
    end,
})

local function buffers()
    local result = {}
    for _, b in ipairs(vim.api.nvim_list_bufs()) do
        local name = vim.api.nvim_buf_get_name(b)
        if name ~= "" and vim.api.nvim_buf_is_loaded(b) then
            table.insert(result, {
                name = name,
                lines = vim.api.nvim_buf_get_lines(b, 0, -1, true),
                eol = vim.bo[b].eol,
                current = b == vim.api.nvim_get_current_buf(),
            })
        end
    end
    return result
end

local function reply(extra)
    local r = vim.tbl_extend("force", {
        sent = sent,
        bufs = buffers(),
        mode = vim.api.nvim_get_mode().mode,
        connections = connections,
        broken = broken,
        err = vim.v.errmsg,
    }, extra or {})
    sent = {}
    vim.v.errmsg = ""
    out:write(vim.json.encode(r), "\n")
    out:flush()
end

local function receive(m)
    if m.method then
        dispatchers.notification(m.method, m.params)
    else
        local callback = callbacks[m.id]
        callbacks[m.id] = nil
        if callback then
            callback(m.error, m.result)
        end
    end
end

local function serve(nested)
    while true do
        local line = inp:read("*l")
        if not line then
            vim.cmd("qall!")
            return
        end
        local c = vim.json.decode(line, { luanil = { object = true, array = true } })
        local what = c["do"]
        local failed
        if what == "go" then
            return
        elseif what == "keys" then
            _G.Keys = vim.api.nvim_replace_termcodes(c.keys, true, true, true)
            -- Quietly, as Neovim makes a pause when it wants to show something.
            local ok, e = pcall(vim.cmd, 'silent! lua vim.api.nvim_feedkeys(_G.Keys, "xt", false)')
            failed = not ok and e or nil
        elseif what == "cmd" then
            local ok, e = pcall(vim.cmd, "silent! " .. c.cmd)
            failed = not ok and e or nil
        elseif what == "set_text" then
            local ok, e = pcall(vim.api.nvim_buf_set_text, 0, c.at[1], c.at[2], c.to[1], c.to[2], c.lines)
            failed = not ok and e or nil
        elseif what == "set_lines" then
            local ok, e = pcall(vim.api.nvim_buf_set_lines, 0, c.at, c.to, false, c.lines)
            failed = not ok and e or nil
        elseif what == "recv" then
            local ok, e = pcall(receive, c.msg)
            failed = not ok and e or nil
        end
        reply({ failed = failed and tostring(failed) or nil, nested = nested })
    end
end

-- To be called in the middle of typing.
function _G.Pause()
    reply({ paused = true, nested = true })
    serve(true)
end

serve(false)
