// Performs calls on the JavaScript library for mc/js/bridge.py: one JSON message per line, answered in order.
// A function passed as an argument is called back by a message of its own while the call is under way.
const fs = require('fs');
const path = require('path');

const lib = require(path.join(process.argv[2], 'javascript'));
const messages = name => require(path.join(process.argv[2], 'javascript', 'lib', 'messages', `${name}.js`))[name];

const snake = text => text.replace(/[A-Z]/g, letter => '_' + letter.toLowerCase());
const ascii = text => JSON.stringify(text).replace(/[\u007f-\uffff]/g, c => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'));

// spells out which message it is and with which arguments, just as TaggedLocale of mc/sut.py
const tagged = new Proxy({}, {
  has: () => true,
  get: (_target, name) => {
    const message = messages('en')[name];
    if(message === undefined || name === 'contentHeader' || name === 'gutterHeader')
      return message;
    if(typeof message !== 'function')
      return '[' + ascii(snake(name)) + ']';
    return (...parts) => '[' + [snake(name), ...parts].map(part => typeof part === 'number' ? String(part) : ascii(String(part))).join(', ') + ']';
  }
});
const locales = { tagged, en: messages('en'), de: messages('de'), es: messages('es') };
const reporters = { text: lib.TextReporter, html: lib.HtmlReporter, terminal: lib.TerminalReporter };

const objects = new Map();
const ids = new Map();
let next = 1;

class Stranger {
  constructor(number) { this.number = number; }
}

const encode = value => {
  if(value === undefined || value === null) return null;
  if(typeof value !== 'object') return typeof value === 'function' || typeof value === 'symbol' ? String(value) : value;
  if(Array.isArray(value)) return value.map(encode);
  if(value instanceof Stranger) return { s: value.number };
  if(value instanceof lib.EnoError)
    return { e: value instanceof lib.ParseError ? 'parse' : value instanceof lib.ValidationError ? 'validation' : 'other',
             text: value.text, snippet: value.snippet, selection: value.selection, cursor: value.cursor, message: value.message };
  if(value instanceof Error) return { x: value.name, m: `${value.message}\n${value.stack}` };
  if(Object.getPrototypeOf(value) === Object.prototype || Object.getPrototypeOf(value) === null)
    return { o: Object.entries(value).map(([key, part]) => [key, encode(part)]) };
  if(!ids.has(value)) {
    objects.set(next, value);
    ids.set(value, next++);
  }
  return { h: ids.get(value), c: value.constructor.name };
};

const decode = value => {
  if(value === null || typeof value !== 'object') return value;
  if(Array.isArray(value)) return value.map(decode);
  if('h' in value) return objects.get(value.h);
  if('s' in value) return new Stranger(value.s);
  if('f' in value) return Object.defineProperty((...parts) => {
    send({ cb: value.f, a: parts.map(encode) });
    const got = serve();
    if('t' in got) throw decode(got.t);
    return decode(got.r);
  }, 'name', { value: value.n });
  return Object.fromEntries(value.o.map(([key, part]) => [key, decode(part)]));
};

let pending = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);

const receive = () => {
  for(;;) {
    const end = pending.indexOf(10);
    if(end !== -1) {
      const line = pending.toString('utf8', 0, end);
      pending = pending.subarray(end + 1);
      return JSON.parse(line);
    }
    const count = fs.readSync(0, chunk, 0, chunk.length, null);
    if(count === 0) process.exit(0);
    pending = Buffer.concat([pending, chunk.subarray(0, count)]);
  }
};

const send = message => {
  const data = Buffer.from(JSON.stringify(message) + '\n');
  try {
    for(let done = 0; done < data.length;) done += fs.writeSync(1, data, done);
  } catch(error) {
    process.exit(error.code === 'EPIPE' ? 0 : 1);
  }
};

const options = given => {
  const result = {};
  if(given.locale) result.locale = locales[given.locale];
  if(given.reporter) result.reporter = reporters[given.reporter];
  if(given.source !== undefined && given.source !== null) result.source = given.source;
  return result;
};

const methods = name => {
  const found = new Set();
  for(let proto = objects.get(name); proto && proto !== Object.prototype; proto = Object.getPrototypeOf(proto))
    for(const key of Object.getOwnPropertyNames(proto))
      if(!key.startsWith('_') && key !== 'constructor') found.add(key);
  return [...found];
};

// overwrites everything that can be overwritten in an answer, as scribble of mc/props/P27.py
const overwrite = (value, seen = new Set()) => {
  if(value === null || typeof value !== 'object' || seen.has(value)) return;
  seen.add(value);
  if(Array.isArray(value)) {
    value.forEach(part => overwrite(part, seen));
    value.push('scribble');
  } else if(Object.getPrototypeOf(value) === Object.prototype) {
    for(const key of Object.keys(value)) {
      if(value[key] !== null && typeof value[key] === 'object')
        overwrite(value[key], seen);
      else
        value[key] = 77;
    }
    value.scribble = true;
  }
};

const scribble = message => {
  let answer;
  try {
    answer = objects.get(message.h)[message.m](...message.a.map(decode));
  } catch(thrown) {
    answer = thrown;
  }
  if(answer instanceof Error) {
    overwrite(answer.selection);
    overwrite(answer.cursor);
  } else
    overwrite(answer);
};

// what the library did since the last time, as the number of characters of its source that were gone through
let inspector = null;
const post = (method, params) => {
  let got;
  inspector.post(method, params, (error, result) => {
    if(error) throw error;
    got = result;
  });
  return got;
};

const steps = () => {
  if(!inspector) {
    require('v8').setFlagsFromString('--no-opt');              // optimized functions are counted as a whole
    require('v8').setFlagsFromString('--no-maglev');
    inspector = new (require('inspector').Session)();
    inspector.connect();
    post('Profiler.enable');
    post('Profiler.startPreciseCoverage', { callCount: true, detailed: true });
  }

  let sum = 0;
  for(const script of post('Profiler.takePreciseCoverage').result) {
    if(!script.url.includes('/javascript/lib/')) continue;
    for(const { ranges } of script.functions) {
      const around = [];
      for(const range of ranges) {
        while(around.length && around[around.length - 1].endOffset <= range.startOffset) around.pop();
        sum += (range.count - (around.length ? around[around.length - 1].count : 0)) * (range.endOffset - range.startOffset);
        around.push(range);
      }
    }
  }
  return sum;
};

const time = () => {
  const { user, system } = process.cpuUsage();
  return (user + system) / 1e6;
};

const perform = message => {
  switch(message.do) {
    case 'steps': return steps();
    case 'time': return time();
    case 'call': return objects.get(message.h)[message.m](...message.a.map(decode));
    case 'quiet': objects.get(message.h)[message.m](...message.a.map(decode)); return;
    case 'scribble': return scribble(message);
    case 'parse': return lib.parse(message.text, options(message));
    case 'lookup': return lib.lookup(Object.fromEntries(Object.entries(message.at)), message.text, options(message));
    case 'methods': return methods(message.h);
    case 'register': return lib.register(...decode(message.definitions));
    case 'catalog': return Object.entries(locales[message.locale]).map(([name, value]) => [snake(name), typeof value === 'function' ? value.length : value]);
    case 'message': return locales[message.locale][message.name](...message.a);
  }
};

// until a message that is the result of a function called back
const serve = () => {
  for(;;) {
    const message = receive();
    if('t' in message || 'r' in message) return message;
    for(const id of message.free || []) {
      ids.delete(objects.get(id));
      objects.delete(id);
    }
    let answer;
    try {
      answer = { r: encode(perform(message)) };
    } catch(thrown) {
      answer = { t: encode(thrown) };
    }
    send(answer);
  }
};

serve();
