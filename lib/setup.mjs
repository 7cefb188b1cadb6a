// Nothing is built ahead of the checks: this tells early when a tool they need is missing.
import { execFileSync } from 'node:child_process'
import { makeWorld } from './harness.mjs'

execFileSync('java', ['-version'], { stdio: 'ignore' })
const world = await makeWorld()
world.shared()
console.log('ready')
process.exit(0)
