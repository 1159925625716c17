// The JavaScript side of the WebAssembly build: does by hand what the bindings that wasm-bindgen
// generates do, with entropy and console under the control of the simulator. Talks to it over
// standard input and output: frames with a length, a JSON header and binary data.
import fs from 'node:fs';

const module = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const imports = WebAssembly.Module.imports(module);
const text = new TextDecoder('utf-8', { fatal: true });

function read(n) {
	const b = Buffer.alloc(n);
	let at = 0;
	while (at < n) {
		let got;
		try {
			got = fs.readSync(0, b, at, n - at, null);
		} catch (e) {
			if (e.code === 'EAGAIN') continue;
			throw e;
		}
		if (got === 0) process.exit(at === 0 ? 0 : 1);
		at += got;
	}
	return b;
}
function write(b) {
	let at = 0;
	while (at < b.length) at += fs.writeSync(1, b, at, b.length - at);
}

// A page in a browser that has loaded the module
class Page {
	constructor() {
		this.heap = new Map();
		this.next = 132;
		this.panic = null;
		this.logs = 0;
		const env = {};
		for (const i of imports) {
			(env[i.module] ??= {})[i.name] = this.host(i.name);
		}
		this.e = new WebAssembly.Instance(module, env).exports;
		this.objects = new Map();
		this.e.main();
	}
	mem() {
		return new Uint8Array(this.e.memory.buffer);
	}
	add(x) {
		this.heap.set(this.next, x);
		return this.next++;
	}
	take(i) {
		const x = this.heap.get(i);
		this.heap.delete(i);
		return x;
	}
	str(p, n) {
		return text.decode(this.mem().slice(p >>> 0, (p >>> 0) + (n >>> 0)));
	}
	host(name) {
		const is = (n) => name.startsWith(`__wbg_${n}_`);
		if (name === '__wbindgen_object_drop_ref') return (i) => void this.heap.delete(i >>> 0);
		if (name === '__wbindgen_string_new') return (p, n) => this.add(this.str(p, n));
		if (name === '__wbindgen_throw')
			return (p, n) => {
				throw new Error(this.str(p, n));
			};
		if (is('getRandomValues')) return (p, n) => this.caught(() => this.entropy(p >>> 0, n >>> 0));
		if (is('new')) return () => this.add(new Error());
		if (is('stack'))
			return (ret, i) => {
				const s = Buffer.from('stack');
				const p = this.e.__wbindgen_malloc(s.length, 1) >>> 0;
				this.mem().set(s, p);
				new DataView(this.e.memory.buffer).setInt32(ret >>> 0, p, true);
				new DataView(this.e.memory.buffer).setInt32((ret >>> 0) + 4, s.length, true);
			};
		if (is('error'))
			return (p, n) => {
				if (n === undefined) {
					this.logs++;
					return;
				}
				this.panic = this.str(p, n).split('\n\nStack:')[0];
				this.e.__wbindgen_free(p, n, 1);
			};
		if (is('log') || is('info') || is('warn') || is('debug')) return () => void this.logs++;
		if (name === '__wbindgen_externref_table_grow') return () => -1;
		return () => {
			throw new Error(`nothing is known about the import ${name}`);
		};
	}
	// What the bindings do around imports that may throw
	caught(f) {
		try {
			f();
		} catch (e) {
			this.e.__wbindgen_exn_store(this.add(e));
		}
	}
	entropy(p, n) {
		const call = this.calls++;
		if (n > 65536) throw new Error('QuotaExceededError');
		if (this.plan.fail_all || this.plan.fail.includes(call)) {
			this.failed++;
			throw new Error('OperationError');
		}
		for (let i = 0; i < n; i++) this.mem()[p + i] = this.bytes[this.used++ % this.bytes.length];
	}
	remux(job, data) {
		this.plan = job;
		this.bytes = data.subarray(0, job.entropy_len);
		data = data.subarray(job.entropy_len);
		this.used = this.calls = this.failed = 0;
		this.panic = null;
		try {
			if (!this.objects.has(job.object)) this.objects.set(job.object, this.e.oggtoogg_new_with_defaults());
			const len = data.length;
			const p = this.e.__wbindgen_malloc(len, 1) >>> 0;
			this.mem().set(data, p);
			const ret = this.e.__wbindgen_malloc(16, 4) >>> 0;
			this.e.oggtoogg_remux(ret, this.objects.get(job.object), p, len);
			const v = new DataView(this.e.memory.buffer);
			const [rp, rn, err, bad] = [0, 4, 8, 12].map((o) => v.getUint32(ret + o, true));
			this.e.__wbindgen_free(ret, 16, 4);
			if (bad) return { is: 'error', text: String(this.take(err)) };
			const out = Buffer.from(this.mem().slice(rp, rp + rn));
			this.e.__wbindgen_free(rp, rn, 1);
			return { is: 'ok', out };
		} catch (e) {
			return { is: 'trap', text: this.panic ?? String(e) };
		}
	}
	close() {
		try {
			for (const o of this.objects.values()) this.e.__wbg_oggtoogg_free(o, 0);
			return { leak: this.heap.size };
		} catch (e) {
			return { trap: String(e) };
		}
	}
}

for (;;) {
	const head = JSON.parse(read(read(4).readUInt32LE()).toString());
	const jobs = head.jobs.map((j) => [j, read(j.len)]);
	const page = new Page();
	const results = [];
	const blobs = [];
	for (const [j, d] of jobs) {
		const r = page.remux(j, d);
		results.push({ is: r.is, text: r.text ?? '', len: r.out?.length ?? 0, calls: page.calls, failed: page.failed, pages: page.e.memory.buffer.byteLength / 65536 });
		if (r.out) blobs.push(r.out);
		if (r.is === 'trap') break;
	}
	const trapped = results.at(-1)?.is === 'trap';
	const end = trapped ? { leak: 0 } : page.close();
	const h = Buffer.from(JSON.stringify({ results, logs: page.logs, leak: end.leak ?? 0, trap: end.trap ?? '' }));
	const l = Buffer.alloc(4);
	l.writeUInt32LE(h.length);
	write(Buffer.concat([l, h, ...blobs]));
}
