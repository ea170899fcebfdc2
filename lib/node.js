// Calls the addon as it is told to: a line of calls in, a line of results out.
const { NodejsLspFiles, basic } = require(process.argv[2]);
let rest = '';
const uri = (k) => new URL(`file:///home/${k.f}.${k.id}.${k.ext}`).href;
process.stdin.setEncoding('utf8');
process.stdin.on('data', (d) => {
  rest += d;
  let i;
  while ((i = rest.indexOf('\n')) >= 0) {
    const calls = JSON.parse(rest.slice(0, i));
    rest = rest.slice(i + 1);
    const files = new NodejsLspFiles();
    const out = calls.map(([name, ...args]) => {
      if (name === 'basic') return basic(args[0]);
      if (name === 'getVariables') return files.getVariables(args[0].f ? uri(args[0]) : args[0], args[1]);
      return files[name](...args);
    }).map((x) => (x === undefined ? null : x));
    process.stdout.write(JSON.stringify(out) + '\n');
  }
});
